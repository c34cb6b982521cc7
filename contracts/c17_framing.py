"""Contracts for message framing (property C17): server.incomplete_header, split_header, read_full_block"""
import z3
from pyvc.engine import REG, LoopSpec as Loop, rx_name
from pyvc.theory import *
from pyvc.runner import lemma
from pyvc.theory import add_axioms, valsort, sort_of, parse_kind
C, S, K = REG.contract, REG.spec, REG.klass
M = 'server'
P = {'props': ['C17']}
And, Or, Implies, If, Not = z3.And, z3.Or, z3.Implies, z3.If, z3.Not
FA = lambda vs, b, *ps: z3.ForAll(vs, b, patterns=list(ps))
ST = Str(); RX, MT = valsort('Regex'), valsort('Match'); OM = sort_of(parse_kind('$Match?'))

# ---- trusted meaning of the two regular expressions used for framing (keyed by their text: any other expression has no meaning here)
# wsend(s, a, b): first position in a..b that holds no white space (b, if there is none); digend: the same for digits
S('wsend', [('s', 'str'), ('a', 'int'), ('b', 'int')], 'int'); S('digend', [('s', 'str'), ('a', 'int'), ('b', 'int')], 'int')
WS, DG = z3.Function('spec.wsend', ST.sort, INT, INT, INT), z3.Function('spec.digend', ST.sort, INT, INT, INT)
s, t = z3.Consts('fr!s fr!t', ST.sort); a, b, p, q, x = z3.Ints('fr!a fr!b fr!p fr!q fr!x'); m = z3.Const('fr!m', MT)
ws = lambda c: Or(c == 32, And(9 <= c, c <= 13)); dig = lambda c: And(48 <= c, c <= 57)
def span(F, cls): return FA([s, a, b], Implies(And(0 <= a, a <= b, b <= ST.len(s)), And(a <= F(s, a, b), F(s, a, b) <= b,
        FA([x], Implies(And(a <= x, x < F(s, a, b)), cls(ST.at(s, x))), ST.at(s, x)), Implies(F(s, a, b) < b, Not(cls(ST.at(s, F(s, a, b))))))), F(s, a, b))
add_axioms('wsend', ({'spec.wsend'}, [span(WS, ws)])); add_axioms('digend', ({'spec.digend'}, [span(DG, dig)]))
NUM = z3.Function('spec.num', ST.sort, INT); S('num', [('s', 'str')], 'int'); PYINT = z3.Function('py.int', ST.sort, INT)
add_axioms('num', ({'spec.num'}, [FA([s], NUM(s) == PYINT(s), NUM(s))]))
# dstart(s): end of the first empty line of s, -1 if there is none; dsm(s, p): end of an empty line (line break twice) beginning at p, or -1
CH = lambda s_, i: If(And(0 <= i, i < ST.len(s_)), ST.at(s_, i), z3.IntVal(-1))
def dsm(s_, p_):
    e1 = If(CH(s_, p_) == 13, p_ + 1, p_)
    e2 = If(CH(s_, e1 + 1) == 13, e1 + 2, e1 + 1)
    return If(And(CH(s_, e1) == 10, CH(s_, e2) == 10), e2 + 1, z3.IntVal(-1))
S('dpos', [('s', 'str')], 'int'); S('dstart', [('s', 'str')], 'int')
DP, DS = z3.Function('spec.dpos', ST.sort, INT), z3.Function('spec.dstart', ST.sort, INT)
FIRST = FA([s], And(DP(s) >= -1, DP(s) < ST.len(s), Implies(DP(s) >= 0, DS(s) == dsm(s, DP(s))), Implies(DP(s) >= 0, DS(s) >= 0), Implies(DP(s) == -1, DS(s) == -1),
                    FA([p], Implies(And(0 <= p, p < ST.len(s), Or(DP(s) == -1, p < DP(s))), dsm(s, p) == -1), ST.at(s, p))), DS(s))
add_axioms('dstart', ({'spec.dstart'}, [FIRST])); add_axioms('dpos', ({'spec.dpos'}, [FA([s], And(DP(s) >= -1, DS(s) >= -1), DP(s))]))
# clfield(s, i): a content length field stands at position i (its number within 100 characters from there); cltext(s, i): its number
# cl(s): position of the first 'Content-Length:' within the first 512 characters; headed(s): s may be continued to become a header
# wellformed(s): s begins with a header that contains a content length field whose number is complete before the end of the header
CLTEXT, CLN, CTN = strlit('Content-Length:'), strlit('Content-Length'), strlit('Content-Type')
for n, ps, r in (('clfield', 'si', 'bool'), ('cltext', 'si', 'str'), ('cl', 's', 'int'), ('headed', 's', 'bool'), ('wellformed', 's', 'bool'), ('numpos', 'si', 'int')):
    S(n, [(x_, {'s': 'str', 'i': 'int'}[x_]) for x_ in ps], r)
i = z3.Int('fr!i'); mn = lambda u, v: If(u < v, u, v)
NP, CLF, CLT = z3.Function('spec.numpos', ST.sort, INT, INT), z3.Function('spec.clfield', ST.sort, INT, BOOL), z3.Function('spec.cltext', ST.sort, INT, ST.sort)
CLI, HD, WF = z3.Function('spec.cl', ST.sort, INT), z3.Function('spec.headed', ST.sort, BOOL), z3.Function('spec.wellformed', ST.sort, BOOL)
lim = lambda s_, i_: mn(i_ + 100, ST.len(s_))
starts = lambda s_, l, n: And(ST.len(s_) >= n, ST.slice(s_, 0, n) == l)
prefixof = lambda s_, l, n: And(ST.len(s_) <= n, s_ == ST.slice(l, 0, ST.len(s_)))
defNP = lambda s_, i_: NP(s_, i_) == WS(s_, i_ + 15, lim(s_, i_))
defCLF = lambda s_, i_: CLF(s_, i_) == And(0 <= i_, i_ + 15 <= ST.len(s_), ST.slice(s_, i_, i_ + 15) == CLTEXT, NP(s_, i_) < lim(s_, i_), dig(ST.at(s_, NP(s_, i_))))
defCLT = lambda s_, i_: CLT(s_, i_) == ST.slice(s_, NP(s_, i_), DG(s_, NP(s_, i_), lim(s_, i_)))
defCLI = lambda s_: CLI(s_) == FIND()(s_, CLTEXT, 0, mn(z3.IntVal(512), ST.len(s_)))
defHD = lambda s_: HD(s_) == Or(prefixof(s_, CLN, 14), And(starts(s_, CLN, 14), DS(s_) < 0), prefixof(s_, CTN, 12), And(starts(s_, CTN, 12), DS(s_) < 0))
defWF = lambda s_: WF(s_) == And(Or(starts(s_, CLN, 14), starts(s_, CTN, 12)), CLI(s_) >= 0, CLF(s_, CLI(s_)), DS(s_) >= 0, DG(s_, NP(s_, CLI(s_)), lim(s_, CLI(s_))) <= DP(s_))
add_axioms('cl', ({'spec.cl'}, [FA([s], defCLI(s), CLI(s))])); add_axioms('headed', ({'spec.headed'}, [FA([s], defHD(s), HD(s))]))
@REG.regex(r'Content-Length:\s*(\d+)', 'match')
def _cl(s, p, e, some, m):
    return [Implies(e == p + 100, And(some == CLF(s, p), Implies(some, And(z3.Function('match.group!1', MT, ST.sort)(m) == CLT(s, p)))))]
@REG.regex(r'\r?\n\r?\n', 'search')
def _ds(s, p, e, some, m):
    return [Implies(And(p == 0, e == ST.len(s)), And(some == (DS(s) >= 0), Implies(some, And(z3.Function('match.start', MT, INT)(m) == DP(s), z3.Function('match.end', MT, INT)(m) == DS(s), DS(s) <= ST.len(s)))))]

# facts about a stream `s + t` of which `s` has been read; proved as lemmas below
st = ST.cat(s, t)
A1 = Implies(DS(s) >= 0, And(DS(st) == DS(s), DP(st) == DP(s)))
A2 = Implies(CLI(s) >= 0, CLI(st) == CLI(s))
A3 = Implies(CLF(s, i), CLF(st, i))
A4 = Implies(And(WF(st), DS(s) >= 0), And(CLI(s) == CLI(st), CLF(s, CLI(st)), CLT(s, CLI(st)) == CLT(st, CLI(st))))
A5 = Implies(And(WF(st), Not(HD(s))), DS(s) >= 0)
A6 = Implies(WF(s), And(CLI(s) >= 0, CLF(s, CLI(s)), DS(s) >= 2, DS(s) <= ST.len(s)))
A7 = Implies(CLF(s, i), And(ST.len(CLT(s, i)) > 0, ST.len(CLT(s, i)) <= ST.len(s)))
A8 = Implies(And(CLF(s, i), 0 <= x, x < ST.len(CLT(s, i))), dig(ST.at(CLT(s, i), x)))
A9 = And(Implies(DS(s) >= 0, DS(s) >= 2), DS(s) <= ST.len(s))
MP = z3.MultiPattern
add_axioms('dstart.len', ({'spec.dstart'}, [FA([s], A9, DS(s))]))
add_axioms('digits.clt', ({'spec.cltext'}, [FA([s, i], A7, CLT(s, i)), FA([s, i, x], A8, ST.at(CLT(s, i), x))]))
add_axioms('frame.ds', ({'spec.dstart'}, [FA([s, t], A1, MP(DS(s), st))]))
add_axioms('frame.cl', ({'spec.cl'}, [FA([s, t], A2, MP(CLI(s), st))]))
add_axioms('frame.clf', ({'spec.clfield'}, [FA([s, t, i], A3, MP(CLF(s, i), st))]))
add_axioms('frame.wf', ({'spec.wellformed'}, [FA([s, t], A4, MP(WF(st), DS(s))), FA([s, t], A5, MP(WF(st), HD(s))), FA([s], A6, WF(s))]))
u = z3.Const('fr!u', ST.sort); PRE = And(WF(u), ST.len(s) <= ST.len(u), ST.slice(u, 0, ST.len(s)) == s)
B4 = Implies(And(PRE, DS(s) >= 0), And(DS(u) == DS(s), CLI(s) == CLI(u), CLF(s, CLI(u)), CLT(s, CLI(u)) == CLT(u, CLI(u))))
B5 = Implies(And(PRE, Not(HD(s))), DS(s) >= 0)
add_axioms('frame.prefix', ({'spec.wellformed'}, [FA([u, s], B4, MP(WF(u), DS(s))), FA([u, s], B5, MP(WF(u), HD(s)))]))
@lemma('a message is recognised when it has arrived', ['C17'])
def _():
    A = [span(WS, ws), span(DG, dig)]
    me = lambda *ts: [z3.Function('mention_fr', v.sort(), BOOL)(v) for v in ts]
    D = lambda *fs: [f(y) for f in fs for y in (s, st)]
    DI = lambda *fs: [f(y, i) for f in fs for y in (s, st)]
    first = lambda y: z3.substitute_vars(FIRST.body(), y)
    F1 = [first(s), first(st)]
    near = [DP(s), DP(st), ST.len(st)] + [z3.substitute(f, (s, y)) for y in (s, st) for f in (ST.at(s, DP(s) + d) for d in range(-3, 4))] + [ST.at(y, DP(z) + d) for y in (s, st) for z in (s, st) for d in range(-3, 4)]
    digs = [span(WS, ws), span(DG, dig)]
    no = lambda f, y: f(y, i)
    c = CLI(st)
    return [('end of the header', F1, A9),
            ('first empty line', F1 + me(*near), A1),
            ('content length field', [defCLI(s), defCLI(st)] + me(ST.len(st), ST.slice(st, CLI(st), CLI(st) + 15), ST.slice(st, CLI(s), CLI(s) + 15), ST.slice(s, CLI(st), CLI(st) + 15)), A2),
            ('number', A + DI(defNP, defCLF) + me(ST.len(st), ST.at(st, NP(s, i)), ST.at(st, NP(st, i)), ST.at(s, NP(st, i))), A3),
            ('length', A + [defNP(s, i), defCLF(s, i), defCLT(s, i)], A7), ('digits', A + [defNP(s, i), defCLF(s, i), defCLT(s, i)], A8),
            ('bounds', F1 + [defWF(s), defCLI(s), defNP(s, CLI(s)), defCLF(s, CLI(s))] + A, A6),
            ('header begun', F1 + [defWF(st), defHD(s)] + me(ST.len(st), ST.slice(st, 0, 14), ST.slice(st, 0, 12)), A5),
            ('prefix', [u == st, A1, A4, A5] + me(ST.len(st)), And(B4, B5)), ('prefix 2', [ST.len(s) <= ST.len(u), ST.slice(u, 0, ST.len(s)) == s], u == ST.cat(s, ST.slice(u, ST.len(s), ST.len(u)))),
            ('header', F1 + A + [A1, defWF(st), defCLI(s), defCLI(st)] + DI(defNP, defCLF, defCLT) + [f(y, c) for f in (defNP, defCLF, defCLT) for y in (s, st)]
                 + me(ST.len(st), ST.at(st, NP(s, c)), ST.at(st, NP(st, c)), ST.at(s, NP(st, c)), ST.slice(s, c, c + 15), ST.slice(st, c, c + 15), ST.at(s, DG(st, NP(st, c), lim(st, c))), ST.at(st, DG(s, NP(s, c), lim(s, c)))), A4)]

# ---- the reader: a stream of bytes of which any part may be delivered at a time (assumed interface of asyncio.StreamReader)
K('StreamReader', 'ext', {'pending': 'str', 'ended': 'bool'})
C('ext', 'StreamReader.read', {'self': 'StreamReader', 'n': 'int'}, 'str', trusted=True, modifies=['self.pending', 'self.ended'],
  ensures=['result + self.pending == old(self.pending)', 'implies(n >= 0, len(result) <= n)'], note='delivers the next bytes of the stream, any number of them')
C('ext', 'StreamReader.at_eof', {'self': 'StreamReader'}, 'bool', trusted=True, ensures=["implies(result, self.pending == '')"], note='True only if nothing is left')

C(M, 'incomplete_header', {'data': 'str'}, 'bool', ensures=['result == headed(data)'], **P)

S('msglen', [('s', 'str')], 'int', 'dstart(s) + num(cltext(s, cl(s)))')
C(M, 'split_header', {'data': 'str'}, '(str,str,str)',
  raises=[('ValueError', 'not headed(data) and not (cl(data) >= 0 and clfield(data, cl(data)))')],
  ensures=['result[0] + result[1] + result[2] == data', "implies(result[0] == '', result[1] == data)",
           'implies(len(result[0]) > 0, len(result[0]) == dstart(data) and len(result[1]) == num(cltext(data, cl(data))))',
           'implies(wellformed(data), (len(result[0]) > 0) == (len(data) >= msglen(data)))'], **P)

# Reading a block: no byte is lost or reordered; if the stream (everything still to come) is a well-formed message, exactly this message is cut off,
# no matter how the stream is cut into chunks. `reader.pending` is the rest of the stream at any time, so old(reader.pending) is the whole of it.
W = 'old(reader.pending)'
LI = [f'data + reader.pending == {W}', "i == cl(data)", '(m is not None) == (i >= 0 and clfield(data, i))']
C(M, 'read_full_block', {'reader': 'StreamReader'}, '(int,str,str)', modifies=['reader.pending', 'reader.ended'],
  ensures=[f'result[1] + result[2] + reader.pending == {W}',
           f'implies(wellformed({W}) and len({W}) >= msglen({W}), result[0] == dstart({W}) and len(result[1]) == msglen({W}))',
           f'implies(result[0] > 0, result[0] == dstart(result[1] + result[2]))'],
  locals={'m': '$Match?', 'm2': '$Match?'},
  loops=[Loop(LI, None), Loop([f'data + reader.pending == {W}', 'i == cl(data)', '(m2 is not None) == (dstart(data) >= 0)', 'implies(m2 is not None, m2.end() == dstart(data))', 'i >= 0 and clfield(data, i)'], None),
         Loop([f'data + reader.pending == {W}', 'missing == header_size + content_length - len(data)', 'header_size == dstart(data)', f'implies(wellformed({W}), content_length == num(cltext({W}, cl({W}))))'], None)], **P)

# ---- the framing loop of Server.handle: verified as a fragment (the loop itself with the local function connection_alive; everything
#      before and after the loop is dropped); buffer and data are treated as values (both are only rebound or extended by this loop)
K('Connection', M, {'alive': 'bool'})
K('Server', M, {'connection': 'Connection?', 'kill_switch': 'bool', 'max_data_size': 'int'})
C(M, 'Server.log', {'self': 'Server', 'args': '[str]'}, 'none', trusted=True)
import ast
from pyvc import source as SRC
SRC.fragment(M, 'Server.handle', 'framing', lambda n: isinstance(n, ast.While) and any(isinstance(x, ast.Name) and x.id == 'content_length' for x in ast.walk(n.test)),
             ['self', 'reader', 'buffer', 'data', 'content_length', 'k', 'id_connection'], '(data, buffer, content_length, k)', ['connection_alive'])
V_ = 'old(buffer) + old(reader.pending)'
C(M, 'Server.handle@framing', {'self': 'Server', 'reader': 'StreamReader', 'buffer': 'str', 'data': 'str', 'content_length': 'int', 'k': 'int', 'id_connection': 'str'}, '(str,str,int,int)',
  requires=["data == ''", 'content_length == -1', 'k == 0', 'self.connection is not None'], modifies=['reader.pending', 'reader.ended', '*Connection.alive', '*Server.kill_switch'],
  ensures=[f'result[0] + (result[1] + reader.pending) == {V_}',
           f'implies(wellformed({V_}) and result[2] >= 0, result[2] == num(cltext({V_}, cl({V_}))) and result[3] == dstart({V_}) and len(result[0]) <= msglen({V_}))',
           f'implies(wellformed({V_}) and 0 <= result[2] and result[2] + result[3] <= len(result[0]), len(result[0]) == msglen({V_}))'],
  locals={'m': '$Match?', 'm2': '$Match?'},
  loops=[Loop([f'data + (buffer + reader.pending) == {V_}', 'self.connection is not None', 'content_length >= -1', 'k >= 0',
               f'implies(wellformed({V_}) and content_length >= 0, content_length == num(cltext({V_}, cl({V_}))) and k == dstart({V_}) and len(data) <= k + content_length)'], None)], **P)
