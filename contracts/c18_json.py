"""Contracts for JSON serialisation (property C18): toolkit.json_encode_string"""
import z3
from pyvc.engine import REG, LoopSpec as Loop
from pyvc.theory import add_axioms, Str, BOOL, strlit
Implies, And = z3.Implies, z3.And
FA = lambda vs, b, *ps: z3.ForAll(vs, b, patterns=list(ps))
C, S = REG.contract, REG.spec
M = 'toolkit'
P = {'props': ['C18']}
ST = Str(); U = z3.Function('spec.jsonlit', ST.sort, ST.sort, BOOL)

# jsonlit(b, s): b is the inside of a JSON string literal (RFC 8259, section 7) that denotes the string s.
# It is the least relation closed under the following rules (one rule for every form of a character).
S('jstr', [('q', 'str'), ('s', 'str')], 'bool')
S('jsonlit', [('b', 'str'), ('s', 'str')], 'bool')
u, v, w, x = (z3.Const('jl_' + n, ST.sort) for n in 'uvwx'); c = z3.Int('jl_c')
one = lambda n: ST.unit(z3.IntVal(n))
PLAIN = FA([c], Implies(And(0x20 <= c, c <= 0x10ffff, c != 0x22, c != 0x5c), U(ST.unit(c), ST.unit(c))), U(ST.unit(c), ST.unit(c)))
CAT = FA([u, v, w, x], Implies(And(U(u, v), U(w, x)), U(ST.cat(u, w), ST.cat(v, x))), z3.MultiPattern(ST.cat(u, w), ST.cat(v, x)))
SHORT = [U(strlit('\\' + a), one(ord(b))) for a, b in (('"', '"'), ('\\', '\\'), ('/', '/'), ('b', '\b'), ('f', '\f'), ('n', '\n'), ('r', '\r'), ('t', '\t'))]
HEX = [U(strlit('\\u' + h), one(n)) for n in (*range(0x20), 0x22, 0x5c, 0x2f, 0x7f) for h in {'%04x' % n, '%04X' % n}]
add_axioms('jsonlit', ({'spec.jsonlit'}, [U(ST.empty, ST.empty), CAT, PLAIN] + SHORT + HEX))

C(M, 'json_encode_string', {'s': 'str'}, 'str',
  ensures=['len(result) >= 2', "result[0] == '\"' and result[len(result) - 1] == '\"'", 'jsonlit(result[1:len(result) - 1], s)', 'jstr(result, s)'],
  comps=['rel:jsonlit'], note='JSON string literal that denotes exactly s', **P)

# ------------------------------------------------------------------ json_dumps(..., partially_serialized=True)
# A JSON value as the writer sees it. Lists and tuples are read only and therefore seen as sequences.
REG.variants['JSON'] = 'str|bool|none|int|$float|dict[str,$JSON]|[$JSON]|JSONstr|JSONnull|$other'
K = REG.klass
K('JSONstr', M, {'serialized_json': 'str'}, truthy=True)
K('JSONnull', M, {}, truthy=True)
K('JSONEnc', M, {'default': 'fn[($JSON)->$JSON]'}, frozen=True)      # default(): a function of the object (exceptions leave json_dumps)

# jstr(q, s): q is the string literal that denotes s;  jsonval(t, v): t is a JSON text of the value v
# jitems(m, xs, i): m is '[' followed by texts of the first i items, each with a comma;  jmembers(m, ks, d, i): likewise for the members of d with the keys ks
HJ = ['dict[str,$JSON]', 'JSONstr.serialized_json']
S('jsonval', [('t', 'str'), ('v', '$JSON')], 'bool', heap=HJ)
S('jitems', [('m', 'str'), ('xs', '[$JSON]'), ('i', 'int')], 'bool', heap=HJ)
S('jmembers', [('m', 'str'), ('ks', '[str]'), ('d', 'dict[str,$JSON]'), ('i', 'int')], 'bool', heap=HJ)
def rules():
    from pyvc.engine import Exec, union_dt, parse_kind, STRK, INTK, BOOLK, NONEK, sort_of, seq_theory, Ref, INT, fnapply
    ex = Exec.__new__(Exec); ex.reg = REG
    uk, view, inj = ex.variant_fns('JSON'); J = inj.range(); alts = union_dt(uk)[1]
    A = lambda k: alts[parse_kind(k)]
    SS, SJ = seq_theory(ST.sort), seq_theory(J)
    dom = z3.Const('j_dom', z3.ArraySort(Ref, z3.ArraySort(ST.sort, BOOL))); val = z3.Const('j_val', z3.ArraySort(Ref, z3.ArraySort(ST.sort, J))); ser = z3.Const('j_ser', z3.ArraySort(Ref, ST.sort))
    H = [dom, val, ser]; hs = [h.sort() for h in H]
    V = z3.Function('spec.jsonval', *hs, ST.sort, J, BOOL); JI = z3.Function('spec.jitems', *hs, ST.sort, SJ.sort, INT, BOOL)
    JM = z3.Function('spec.jmembers', *hs, ST.sort, SS.sort, Ref, INT, BOOL); JS = z3.Function('spec.jstr', ST.sort, ST.sort, BOOL)
    t, m, q, s = (z3.Const('j_' + n, ST.sort) for n in 'tmqs'); v, w = z3.Consts('j_v j_w', J); xs = z3.Const('j_xs', SJ.sort); ks = z3.Const('j_ks', SS.sort)
    d, e = z3.Consts('j_d j_e', Ref); i, j = z3.Ints('j_i j_j')
    u = view(v); L = ST.len(t)
    isk = lambda k: A(k)[1](u)
    get = lambda k: A(k)[2](u)
    vt = V(*H, t, v)
    R = [FA([q, s], JS(q, s) == And(ST.len(q) >= 2, ST.at(q, 0) == 34, ST.at(q, ST.len(q) - 1) == 34, U(ST.slice(q, 1, ST.len(q) - 1), s)), JS(q, s))]
    rule = lambda cond, extra=(), *p: R.append(FA(H + [t, v] + list(extra), Implies(cond, vt), *(p or (vt,))))
    rule(And(isk('str'), JS(t, get('str'))))
    rule(And(isk('bool'), get('bool'), t == strlit('true'))); rule(And(isk('bool'), z3.Not(get('bool')), t == strlit('false')))
    rule(And(A('none')[1](u), t == strlit('null'))); rule(And(isk('JSONnull'), t == strlit('null')))
    rule(And(isk('int'), t == z3.Function('repr_Int', INT, ST.sort)(get('int'))))
    F = sort_of(parse_kind('$float')); rule(And(isk('$float'), t == z3.Function('repr_' + F.name(), F, ST.sort)(get('$float'))))
    rule(And(isk('JSONstr'), t == z3.Select(ser, get('JSONstr'))))
    fk = parse_kind('fn[($JSON)->$JSON]'); f = z3.Const('j_f', sort_of(fk)); ENC = fnapply(fk)
    rule(And(isk('$other'), V(*H, t, ENC(f, v))), [f], z3.MultiPattern(vt, ENC(f, v)))
    # lists
    n = SJ.len(get('[$JSON]'))
    rule(And(isk('[$JSON]'), n == 0, t == strlit('[]')))
    rule(And(isk('[$JSON]'), n > 0, L > 0, ST.at(t, L - 1) == ord(']'), JI(*H, m, get('[$JSON]'), n), m == ST.cat(ST.slice(t, 0, L - 1), strlit(','))), [m, xs, i], z3.MultiPattern(vt, JI(*H, m, xs, i)))
    R.append(FA(H + [xs], JI(*H, strlit('['), xs, 0), JI(*H, strlit('['), xs, 0)))
    R.append(FA(H + [m, t, xs, i], Implies(And(JI(*H, m, xs, i), 0 <= i, i < SJ.len(xs), V(*H, t, SJ.at(xs, i))), JI(*H, ST.cat(m, ST.cat(t, strlit(','))), xs, i + 1)), z3.MultiPattern(JI(*H, m, xs, i), V(*H, t, SJ.at(xs, i)))))
    # dictionaries
    D = get('dict[str,$JSON]'); dm = z3.Select(dom, D); x = z3.Const('j_x', ST.sort)
    empty = z3.ForAll([x], z3.Not(z3.Select(dm, x)))
    rule(And(isk('dict[str,$JSON]'), dm == z3.K(ST.sort, z3.BoolVal(False)), t == strlit('{}')))
    keys = And(z3.ForAll([i], Implies(And(0 <= i, i < SS.len(ks)), z3.Select(dm, SS.at(ks, i))), patterns=[SS.at(ks, i)]),
               z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < SS.len(ks)), SS.at(ks, i) != SS.at(ks, j)), patterns=[z3.MultiPattern(SS.at(ks, i), SS.at(ks, j))]),
               z3.ForAll([x], Implies(z3.Select(dm, x), z3.Exists([i], And(0 <= i, i < SS.len(ks), SS.at(ks, i) == x))), patterns=[z3.Select(dm, x)]))
    rule(And(isk('dict[str,$JSON]'), JM(*H, m, ks, D, SS.len(ks)), SS.len(ks) > 0, L > 0, ST.at(t, L - 1) == ord('}'), m == ST.cat(ST.slice(t, 0, L - 1), strlit(',')), keys), [m, ks, d, j], z3.MultiPattern(vt, JM(*H, m, ks, d, j)))
    R.append(FA(H + [ks, d], JM(*H, strlit('{'), ks, d, 0), JM(*H, strlit('{'), ks, d, 0)))
    R.append(FA(H + [m, q, t, ks, d, i], Implies(And(JM(*H, m, ks, d, i), 0 <= i, i < SS.len(ks), JS(q, SS.at(ks, i)), V(*H, t, z3.Select(z3.Select(val, d), SS.at(ks, i)))),
        JM(*H, ST.cat(m, ST.cat(q, ST.cat(strlit(':'), ST.cat(t, strlit(','))))), ks, d, i + 1)), z3.MultiPattern(JM(*H, m, ks, d, i), JS(q, SS.at(ks, i)), V(*H, t, z3.Select(z3.Select(val, d), SS.at(ks, i))))))
    add_axioms('jsonval', ({'spec.jsonval', 'spec.jitems', 'spec.jmembers', 'spec.jstr'}, R))
rules()
TEXT, INIT = "''.join(seq(r))", "''.join(seq(r)[:len(r) - 1])"
C(M, 'json_dumps.serialize', {'obj': '$JSON'}, 'list[str]', closure={'custom_encoder': 'JSONEnc'}, fresh=True, ensures=["jsonval(''.join(seq(result)), obj)"],
  locals={'r': 'list[str]'}, steps=[f'{TEXT} == {INIT} + r[len(r) - 1]', f'implies(isa(obj, tuple), jitems({INIT} + ",", as_kind(obj, "[$JSON]"), len(as_kind(obj, "[$JSON]"))))'],
  loops=[Loop([f'jmembers({TEXT}, _it, as_kind(obj, "dict[str,$JSON]"), _i)', 'len(r) > 0', f'implies(_i > 0, r[len(r) - 1] == "," and {TEXT} == {INIT} + ",")', 'fresh(r)']),
         Loop([f'jitems({TEXT}, as_kind(obj, "[$JSON]"), _i)', 'len(r) > 0', f'implies(_i > 0, r[len(r) - 1] == "," and {TEXT} == {INIT} + ",")', 'fresh(r)'])], **P)
C(M, 'json_dumps', {'obj': '$JSON', 'cls': 'fn[()->JSONEnc]', 'partially_serialized': 'bool'}, 'str', requires=['partially_serialized'], ensures=['jsonval(result, obj)'],
  note='with partially_serialized=True; otherwise the standard library writes the text', **P)
