from oracles.base import *
from oracles import trees as T
from DHParser.nodetree import *
from DHParser.nodetree import xml_tag_name, LEAF_PTYPES
import json as _json, xml.etree.ElementTree as ET, re as _re, copy
NAMES = ['a', 'b', 'doc', 'x1', 'pos', 'err', ':Text', ':RegExp', 'a-b', 'n.m', 'content', '_u']
CH = ['x', 'y', ' ', '  ', 'ab', '\n', 'ä', '(', ')', '"', "'", '&', '<', '>', '`', '\\', '@', ' )', '( ', '""', "''", '\t', ':', ';', '&amp;', '𝄞', '', '\u2028']
def txt(r, n=3, ch=CH): return ''.join(r.choice(ch) for _ in range(r.randint(0, n)))
AT = ['p', 'q', 'xml:id', 'a-b', 'c.d', 'position', 'posx', 'error', 'errs', 'pos-2', '_x']
def gen(r, size, names=NAMES, ch=CH, depth=None):
    t = T.gen(r, size, depth, names=names, ch=ch, attrs=False, txt=lambda r, n=3, ch=ch: txt(r, r.randint(0, 5), ch))
    def addattrs(t):
        if r.random() < .3: t[2] = {r.choice(AT): txt(r, 3, ch) for _ in range(r.randint(1, 3))}
        if not isinstance(t[1], str): [addattrs(x) for x in t[1]]
    addattrs(t)
    return t
def poses(nd): return [n._pos for n in T.allnodes(nd)]
def genj(r, size): return {'t': gen(r, size, names=NAMES + ['x__', 'pos__', 'attributes__', 'content__'] if r.random() < .3 else NAMES), 'pos': r.choice([-1, 0, 5]), 'indent': r.choice([0, 2, None]), 'ascii': r.random() < .3, 'root': r.random() < .3}
def runj(c):
    """JSON list and dictionary flavour"""
    if not T.valid(c['t']): return
    nd = T.build(c['t'])
    if c['pos'] >= 0: nd.with_pos(c['pos'])
    if c['root']: nd = RootNode(nd)
    dictok = not any(n.name in ('pos__', 'attributes__', 'content__') for n in T.allnodes(nd))
    for as_dict in (False, True):
        if as_dict and not dictok: continue
        for inc in (True, False):
            s = nd.as_json(indent=c['indent'], ensure_ascii=c['ascii'], as_dict=as_dict, include_pos=inc)
            r = parse_json(s)
            expect(T.same(r, c['t']), f'JSON as_dict={as_dict} round trip: {T.dump(r)}'); expect(r.equals(nd) and nd.equals(r), 'equals after JSON round trip')
            o = Node.from_json_obj(nd.to_json_obj(as_dict=as_dict, include_pos=inc)); expect(T.same(o, c['t']), f'JSON object as_dict={as_dict} round trip')
            if inc and c['pos'] >= 0: eq(poses(r), poses(nd), f'positions as_dict={as_dict}'); eq(poses(o), poses(nd), f'positions as_dict={as_dict}')
            elif not inc: expect(all(p < 0 for p in poses(r)), 'positions although not included')
            if dictok: expect(T.same(deserialize(s), c['t']), 'deserialize')
    expect(T.same(nd, c['t']), 'serializing changed the tree')
def sxpr_ok(t):
    """no control characters, no text line with both kinds of quotation marks, no quotation marks in attribute values"""
    def ok(s): return not _re.search(r'[\x00-\x08\x0b-\x1f]', s) 
    if not isinstance(t[1], str):
        if not all(sxpr_ok(x) for x in t[1]): return False
    elif not ok(t[1]) or any('"' in l and "'" in l for l in t[1].split('\n')): return False
    return all(ok(v) and '"' not in v for v in t[2].values())
def gens(r, size): return {'t': gen(r, size, ch=[c for c in CH if r.random() < .8] or ['x']), 'pos': r.choice([-1, 0, 5]), 'indent': r.choice([0, 2, 4]), 'thr': r.choice([0, 92, 92, -1, 10]), 'compact': r.random() < .7, 'sxml': r.choice([0, 0, 1, 2])}
def runs(c):
    """S-expressions"""
    if not T.valid(c['t']) or not sxpr_ok(c['t']) or not 0 <= c['sxml'] <= 2: return
    nd = T.build(c['t'])
    if c['pos'] >= 0: nd.with_pos(c['pos'])
    s = nd.as_sxpr(indentation=c['indent'], compact=c['compact'], flatten_threshold=c['thr'], sxml=c['sxml'])
    r = parse_sxpr(s); expect(T.same(r, c['t']), f'S-expression round trip: {s!r} -> {T.dump(r)}'); expect(all(p < 0 for p in poses(r)), 'positions')
    s2 = nd.as_sxpr(src='', indentation=c['indent'], compact=c['compact'], flatten_threshold=c['thr'], sxml=c['sxml'])
    r = parse_sxpr(s2); expect(T.same(r, c['t']), f'S-expression round trip with positions: {s2!r} -> {T.dump(r)}'); eq(poses(r), poses(nd), 'positions')
    if c['sxml'] == 0: expect(T.same(deserialize(s), c['t']), 'deserialize')
    expect(T.same(nd, c['t']), 'serializing changed the tree')
XN = ['a', 'b', 'doc', 'x1', 'a-b', 'n.m', ':Series', ':x', '_u']
def genx(r, size): return {'t': gen(r, size, names=XN + [':Text'] * r.choice([0, 3]), ch=[c for c in CH if r.random() < .8] or ['x']), 'pos': r.choice([-1, 0]), 'attr': r.choice(['fix', 'fix', 'ignore'])}
def xml_ok(t, attr):
    def ok(s): return not _re.search(r'[\x00-\x08\x0b-\x1f]|&#?[\w:.·-]+;', s)
    if isinstance(t[1], str):
        if not ok(t[1]): return False
    elif not all(xml_ok(x, attr) for x in t[1]): return False
    return all(ok(v) and '\n' not in v and '\t' not in v and (attr == 'fix' or not set(v) & set('<&"')) for v in t[2].values()) and 'xml:id' not in t[2]
def runx(c):
    '''XML output read by a standard XML parser'''
    if not T.valid(c['t']) or not xml_ok(c['t'], c['attr']) or c["t"][0] == ":Text" or isinstance(c["t"][1], str) and "\n" in c["t"][1] or any(T.at(c["t"], p)[0] in LEAF_PTYPES - {":Text"} for p in T.paths(c["t"])) or c['attr'] not in ('fix', 'ignore'): return
    from DHParser.configuration import set_config_value
    nd = T.build(c['t'])
    if c['pos'] >= 0: nd.with_pos(c['pos'])
    set_config_value('xml_attribute_error_handling', c['attr'])
    s = nd.as_xml(inline_tags={nd.name}, strict_mode=False)
    e = ET.fromstring(s)
    def check(t, e):
        eq(e.tag, xml_tag_name(t[0]), 'tag name'); eq(e.attrib, t[2], 'attributes')
        txts = ['']; elems = []
        if isinstance(t[1], str): txts = [t[1]]
        else:
            for x in t[1]:
                if x[0] == ':Text' and not x[2] and isinstance(x[1], str): txts[-1] += x[1]
                else: elems.append(x); txts.append('')
        eq([e.text or ''] + [x.tail or '' for x in e], txts, 'text'); eq(len(list(e)), len(elems), 'elements')
        for x, y in zip(elems, e): check(x, y)
    if not any(x[0] == ':Text' and (x[2] or not isinstance(x[1], str)) for p in T.paths(c['t']) for x in [T.at(c['t'], p)]): check(c['t'], e)
    plain = all(x[0] != ':Text' and (not isinstance(x[1], str) or not set(x[1]) & set('&<>') and not (x[1] != '' and '\n' in x[1] and not x[1].strip())) and not any(set(v) & set('&<>"') for v in x[2].values()) for p in T.paths(c['t']) for x in [T.at(c['t'], p)])
    if plain: r = parse_xml(s, strict_mode=False); expect(T.same(r, c['t']), f'XML round trip {s!r} -> {T.dump(r)}')
    expect(T.same(nd, c['t']), 'serializing changed the tree')
CHECKS = [('xml', genx, runx), ('json', genj, runj), ('sxpr', gens, runs)]
