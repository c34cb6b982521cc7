"""Access to the current source of /repo/DHParser: ASTs, classes, functions, module constants."""
import ast, os, sys, importlib, hashlib

REPO = os.environ.get('PYVC_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path: sys.path.insert(0, REPO)

_BUILTIN_EXC = {}
import builtins
for _n in dir(builtins):
    _o = getattr(builtins, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException): _BUILTIN_EXC[_n] = _o

class ModuleSrc:
    def __init__(self, name):
        self.name = name                       # e.g. 'stringview'
        self.path = os.path.join(REPO, 'DHParser', name + '.py') if name != 'ext' else os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'ext_iface.py')
        with open(self.path, encoding='utf-8') as f: self.text = f.read()
        self.tree = ast.parse(self.text)
        self.functions, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self._scan(self.tree.body)
        self._real = None

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = ClassSrc(self, n)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name, None)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name): self.assigns[t.id] = n.value
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                self._scan(n.body)
                for h in getattr(n, 'handlers', []): self._scan(h.body)
                self._scan(getattr(n, 'orelse', []))

    @property
    def real(self):
        """the imported module (only used for module level constants)"""
        if self._real is None:
            self._real = importlib.import_module('DHParser.' + self.name)
        return self._real

class ClassSrc:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.props, self.setters, self.attrs, self.static = {}, {}, {}, {}, set()
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [ast.unparse(d) for d in n.decorator_list]
                if 'property' in decs or any(d.endswith('cached_property') for d in decs): self.props[n.name] = n
                elif any(d.endswith('.setter') for d in decs): self.setters[n.name] = n
                elif any(d.endswith('.deleter') for d in decs): pass
                else:
                    self.methods[n.name] = n
                    if 'staticmethod' in decs: self.static.add(n.name)
                    if 'classmethod' in decs: self.static.add('cls:' + n.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.attrs[n.target.id] = n.value
        self.bases = [b for b in node.bases]

_modules = {}
def module(name):
    if name.endswith('.py'): name = name[:-3]
    if name.startswith('DHParser.'): name = name[9:]
    if name not in _modules: _modules[name] = ModuleSrc(name)
    return _modules[name]

def find_class(mod, name):
    """ClassSrc for class `name` visible in module mod, or None"""
    if name in mod.classes: return mod.classes[name]
    if name in mod.imports:
        m, n = mod.imports[name]
        if m and m.startswith('DHParser.') and n and os.path.exists(os.path.join(REPO, 'DHParser', m[9:] + '.py')):
            return find_class(module(m), n)
    return None

def mro(cls):
    """linearised (C3 is not needed: depth first without duplicates) list of ClassSrc"""
    out = [cls]
    for b in cls.bases:
        if isinstance(b, ast.Name):
            c = find_class(cls.module, b.id)
            if c is not None:
                for x in mro(c):
                    if x in out: out.remove(x)
                    out.append(x)
    return out

def find_member(cls, name):
    """-> ('method'|'prop'|'attr', node, ClassSrc) or None"""
    for c in mro(cls):
        if name in c.methods: return ('method', c.methods[name], c)
        if name in c.props: return ('prop', c.props[name], c)
        if name in c.attrs: return ('attr', c.attrs[name], c)
    return None

def find_setter(cls, name):
    for c in mro(cls):
        if name in c.setters: return (c.setters[name], c)
    return None

def all_subclasses(name):
    out = []
    for m in list(_modules.values()):
        for c in m.classes.values():
            if c.name != name and any(x.name == name for x in mro(c)[1:]): out.append(c)
    return out

FRAGMENTS = {}
def fragment(modname, qual, name, find, params, result, with_defs=()):
    """declare a statement of a function (found by a predicate on the syntax tree) as a unit of verification of its own:
    its free variables become parameters, the listed local functions are kept, the result is the tuple of the variables it sets"""
    FRAGMENTS[(modname, f'{qual}@{name}')] = (qual, find, params, result, with_defs)

def get_fragment(modname, fq):
    qual, find, params, result, with_defs = FRAGMENTS[(modname, fq)]
    node, cls, outer, m = get_function(modname, qual)
    if node is None: return None, None, [], m
    hits = [x for x in ast.walk(node) if find(x)]
    defs = [x for x in ast.walk(node) if isinstance(x, ast.FunctionDef) and x.name in with_defs]
    if len(hits) != 1 or len(defs) != len(with_defs): return None, None, [], m
    ret = ast.parse(f'return {result}').body[0]
    args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[], defaults=[])
    f = ast.FunctionDef(name=fq.split('.')[-1], args=args, body=defs + [hits[0], ret], decorator_list=[], returns=None, type_params=[], lineno=hits[0].lineno, col_offset=0)
    ast.copy_location(ret, hits[0]); ast.fix_missing_locations(f); ret.lineno = hits[0].end_lineno
    return f, cls, outer, m

def get_function(modname, qual):
    """FunctionDef and ClassSrc (or None) for 'func', 'Class.method', 'Class.prop', 'Class.prop@setter', 'outer.inner'"""
    if '@' in qual and (modname, qual) in FRAGMENTS: return get_fragment(modname, qual)
    m = module(modname)
    parts = qual.split('.')
    cls = None
    if parts[0] in m.classes:
        cls = m.classes[parts[0]]
        name = parts[1]
        if name.endswith('@setter'): node = cls.setters.get(name[:-7])
        else: node = cls.methods.get(name) or cls.props.get(name)
        rest = parts[2:]
    else:
        node = m.functions.get(parts[0])
        rest = parts[1:]
    outer = []
    for r in rest:
        if node is None: break
        outer.append(node)
        node = next((n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == r), None)
    return node, cls, outer, m

def src_hash(node):
    return hashlib.sha1(ast.dump(node).encode()).hexdigest()[:12]

def exc_is_subclass(name, base):
    """exception class names: builtin hierarchy, otherwise by repo class bases"""
    if name == base or base in ('BaseException', 'Exception'): return True
    if name in _BUILTIN_EXC and base in _BUILTIN_EXC: return issubclass(_BUILTIN_EXC[name], _BUILTIN_EXC[base])
    for m in _modules.values():
        if name in m.classes:
            for b in m.classes[name].bases:
                if isinstance(b, ast.Name) and exc_is_subclass(b.id, base): return True
    return False
