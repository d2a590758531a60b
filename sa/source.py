"""Source model of the analysed repository: modules, imports, classes, MRO.

Nothing here imports or runs the analysed code; everything is read from the
syntax trees of the files in the working tree.
"""
import ast
import os


class Func:
    __slots__ = ('node', 'module', 'cls', 'name', 'closure', 'decor')

    def __init__(self, node, module, cls=None, closure=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure
        self.name = getattr(node, 'name', '<lambda>')
        self.decor = []
        for d in getattr(node, 'decorator_list', []):
            try:
                self.decor.append(ast.unparse(d))
            except Exception:
                self.decor.append('?')

    @property
    def qual(self):
        c = self.cls.name + '.' if self.cls else ''
        return '%s:%s%s' % (self.module.relpath, c, self.name)

    @property
    def is_static(self):
        return 'staticmethod' in self.decor

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decor

    @property
    def is_property(self):
        return any(d in ('property', 'abstractproperty', 'functools.cached_property', 'cached_property')
                   for d in self.decor)

    @property
    def is_generator(self):
        for n in walk_scope(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False


def walk_scope(node):
    """walk a function body without descending into nested function/class scopes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.deleters = {}
        self.attrs = {}
        self.nested = {s.name: Class(s, module) for s in node.body if isinstance(s, ast.ClassDef)}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, module, self)
                if any(d.endswith('.setter') for d in f.decor):
                    self.setters[s.name] = f
                elif any(d.endswith('.deleter') for d in f.decor):
                    self.deleters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.attrs[a.id] = b
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value

    def __repr__(self):
        return '<Class %s>' % self.name


class Module:
    def __init__(self, repo, name, relpath, text):
        self.repo = repo
        self.name = name
        self.relpath = relpath
        self.text = text
        self.tree = ast.parse(text, relpath)
        self.is_pkg = relpath.endswith('__init__.py')
        self.funcs = {}
        self.classes = {}
        self.consts = {}
        self.imports = {}      # local name -> ('mod', dotted) | ('from', dotted, name)
        self.stars = []
        self._nassign = {}
        self._scan(self.tree.body)

    def _abs(self, node):
        base = node.module or ''
        if node.level:
            parts = self.name.split('.')
            if not self.is_pkg:
                parts = parts[:-1]
            up = node.level - 1
            if up:
                parts = parts[:-up]
            base = '.'.join(parts + ([base] if base else []))
        return base

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(s)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
                        self._nassign[t.id] = self._nassign.get(t.id, 0) + 1
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self._nassign[e.id] = 2
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in self.classes:
                        self.classes[t.value.id].attrs[t.attr] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
                self._nassign[s.target.id] = self._nassign.get(s.target.id, 0) + 1
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self._nassign[s.target.id] = 2
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                self._scan(s.orelse)
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body)
                self._scan(getattr(s, 'finalbody', []))


class Repo:
    def __init__(self, root, overrides=None, packages=('dedop',)):
        overrides = overrides or {}      # relative path -> replacement text
        self.root = root
        self.modules = {}
        self.errors = {}
        for p in packages:
            for d, ds, fs in os.walk(os.path.join(root, p)):
                ds[:] = [x for x in sorted(ds) if not x.startswith('.') and x != '__pycache__']
                for f in sorted(fs):
                    if f.endswith('.py'):
                        full = os.path.join(d, f)
                        rel = os.path.relpath(full, root)
                        name = rel[:-3].replace(os.sep, '.')
                        if name.endswith('.__init__'):
                            name = name[:-9]
                        try:
                            with open(full, encoding='utf-8') as fh:
                                self.modules[name] = Module(self, name, rel, overrides.get(rel) or fh.read())
                        except SyntaxError as e:
                            self.errors[rel] = str(e)
        self._mro = {}
        self._byname = None
        self._fbyname = None
        self._own = {}
        self._wr = {}
        self._rd = {}
        self._global_writes = None

    def add_text(self, name, relpath, text):
        m = Module(self, name, relpath, text)
        self.modules[name] = m
        return m

    # ---- lookup
    def module(self, relpath):
        for m in self.modules.values():
            if m.relpath == relpath:
                return m
        return None

    def resolve(self, module, name, depth=0):
        """-> ('func',Func) ('class',Class) ('const',expr,Module) ('mod',dotted) ('ext',dotted) or None"""
        if depth > 12:
            return None
        if name in module.funcs:
            return ('func', module.funcs[name])
        if name in module.classes:
            return ('class', module.classes[name])
        if name in module.consts:
            return ('const', module.consts[name], module)
        if name in module.imports:
            i = module.imports[name]
            if i[0] == 'mod':
                return ('mod', i[1])
            _, base, nm = i
            sub = base + '.' + nm if base else nm
            if base in self.modules:
                r = self.resolve(self.modules[base], nm, depth + 1)
                if r is not None:
                    return r
            if sub in self.modules:
                return ('mod', sub)
            return ('ext', sub)
        for base in module.stars:
            if base in self.modules:
                r = self.resolve(self.modules[base], name, depth + 1)
                if r is not None:
                    return r
        return None

    def mro(self, cls):
        if cls in self._mro:
            return self._mro[cls]
        self._mro[cls] = [cls]
        out = [cls]
        for b in cls.node.bases:
            r = self.resolve_expr_class(cls.module, b)
            if r is not None:
                for c in self.mro(r):
                    if c not in out:
                        out.append(c)
        self._mro[cls] = out
        return out

    def ext_bases(self, cls):
        out = []
        for c in self.mro(cls):
            for b in c.node.bases:
                if self.resolve_expr_class(c.module, b) is None:
                    try:
                        out.append(ast.unparse(b))
                    except Exception:
                        pass
        return out

    def resolve_expr_class(self, module, e):
        r = self.resolve_dotted(module, e)
        if r and r[0] == 'class':
            return r[1]
        return None

    def resolve_dotted(self, module, e):
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_dotted(module, e.value)
            if b and b[0] == 'mod':
                if b[1] in self.modules:
                    r = self.resolve(self.modules[b[1]], e.attr)
                    if r is not None:
                        return r
                    if b[1] + '.' + e.attr in self.modules:
                        return ('mod', b[1] + '.' + e.attr)
                return ('ext', b[1] + '.' + e.attr)
            if b and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b and b[0] == 'class':
                m = self.find_method(b[1], e.attr)
                if m:
                    return ('func', m)
        return None

    def find_method(self, cls, name, after=None):
        seen = after is None
        for c in self.mro(cls):
            if seen and name in c.methods:
                return c.methods[name]
            if c is after:
                seen = True
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c.attrs[name], c
        return None

    def find_nested(self, cls, name):
        return next((c.nested[name] for c in self.mro(cls) if name in c.nested), None)

    def find_class(self, relpath, name):
        m = self.module(relpath)
        return m.classes.get(name) if m else None

    def class_by_name(self, name):
        out = [m.classes[name] for m in self.modules.values() if name in m.classes]
        return out[0] if len(out) >= 1 else None

    def methods_by_name(self, name):
        if self._byname is None:
            d = {}
            for m in self.modules.values():
                for c in m.classes.values():
                    for k, f in c.methods.items():
                        d.setdefault(k, []).append(f)
            self._byname = d
        return self._byname.get(name, [])

    MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'sort', 'reverse',
           'setdefault', 'popitem', 'popleft', 'appendleft'}

    def own_writes(self, f):
        """(attribute names assigned, attribute names whose container is changed, names called) in one function"""
        r = self._own.get(f.node)
        if r is None:
            w, m, calls = set(), set(), set()

            def base(e):
                while isinstance(e, (ast.Subscript,)):
                    e = e.value
                return e

            def target(t):
                if isinstance(t, (ast.Tuple, ast.List)):
                    for x in t.elts:
                        target(x)
                elif isinstance(t, ast.Starred):
                    target(t.value)
                elif isinstance(t, ast.Attribute):
                    w.add(t.attr)
                elif isinstance(t, ast.Subscript):
                    b = base(t)
                    if isinstance(b, ast.Attribute):
                        m.add(b.attr)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.Delete)):
                    for t in n.targets:
                        target(t)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                    target(n.target)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    target(n.optional_vars)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name):
                        calls.add(n.func.id)
                    elif isinstance(n.func, ast.Attribute):
                        calls.add(n.func.attr)
                        b = base(n.func.value)
                        if n.func.attr in self.MUT and isinstance(b, ast.Attribute):
                            m.add(b.attr)
                    else:
                        calls.add('__call__')
            r = self._own[f.node] = (w, m, calls)
        return r

    def writes(self, f):
        """transitive (attributes assigned, containers changed) of a call of f, by name resolution"""
        r = self._wr.get(f.node)
        if r is not None:
            return r
        if self._fbyname is None:
            self._fbyname = {}
            for mod in self.modules.values():
                if mod.relpath.startswith('spec/'):
                    continue
                for g in mod.funcs.values():
                    self._fbyname.setdefault(g.name, []).append(g)
        w, m, seen, todo = set(), set(), set(), [f]
        while todo:
            g = todo.pop()
            if g.node in seen:
                continue
            seen.add(g.node)
            a, b, calls = self.own_writes(g)
            w |= a
            m |= b
            for c in calls:
                ms = self.methods_by_name(c)
                todo.extend(x for x in ms if x.name != '__init__' and not x.module.relpath.startswith('spec/'))
                todo.extend(self._fbyname.get(c, []))
                if not ms and c not in self._fbyname and c not in self.MUT:
                    todo.extend(x for x in self.methods_by_name('__call__'))
        for n in list(w | m):
            for p in self.methods_by_name(n):
                if p.is_property and len(p.node.body) and isinstance(p.node.body[-1], ast.Return) \
                        and isinstance(p.node.body[-1].value, ast.Attribute):
                    x = p.node.body[-1].value.attr
                    if n in w:
                        w.add(x)
                    if n in m:
                        m.add(x)
        r = self._wr[f.node] = (frozenset(w), frozenset(m))
        return r

    def reads(self, f):
        """attributes each parameter of f is asked for, in f itself or (for self) in the methods and
        properties of its class that f uses: {parameter: names}"""
        r = self._rd.get(f.node)
        if r is not None:
            return r
        self._rd[f.node] = {}
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        out = {p: set() for p in ps}
        own = ps[0] if f.cls is not None and not f.is_static and ps else None
        seen, todo = set(), [(f, own)]
        while todo:
            g, me = todo.pop()
            if g.node in seen:
                continue
            seen.add(g.node)
            stored = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                    p = n.value.id
                    if p in stored:
                        continue
                    if p == me:
                        m = self.find_method(f.cls, n.attr)
                        if m is not None:
                            if m.node.args.args:
                                todo.append((m, m.node.args.args[0].arg))
                        else:
                            out[own].add(n.attr)
                    elif g is f and p in out:
                        out[p].add(n.attr)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name):
                    p = n.target.value.id
                    if p == me:
                        out[own].add(n.target.attr)
                    elif g is f and p in out:
                        out[p].add(n.target.attr)
        self._rd[f.node] = out
        return out

    def generators(self):
        """names of functions that hand out a generator, whichever function of that name is meant"""
        if getattr(self, '_gens', None) is None:
            yes, no = set(), set()
            for m in list(self.modules.values()):
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        own = [x for x in ast.walk(n)]
                        if any(isinstance(d, ast.Name) and d.id == 'contextmanager' for d in n.decorator_list):
                            no.add(n.name)
                        elif any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own) or any(
                                isinstance(x, ast.Return) and isinstance(x.value, ast.GeneratorExp) for x in own):
                            yes.add(n.name)
                        elif not all(isinstance(x, ast.Pass) for x in n.body):
                            no.add(n.name)
            self._gens = yes - no
        return self._gens

    def dict_attrs(self):
        """names of attributes that hold dictionaries: every value assigned to them is written as one"""
        if getattr(self, '_dicts', None) is None:
            yes, no = set(), set()

            def isdict(v):
                return isinstance(v, (ast.Dict, ast.DictComp)) or (
                    isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('dict', 'OrderedDict'))
            for m in list(self.modules.values()):
                if m.relpath.startswith('dedop/'):
                    for n in ast.walk(m.tree):
                        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                            for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                                if isinstance(x, ast.Attribute):
                                    (yes if isdict(n.value) else no).add(x.attr)
            self._dicts = yes - no
        return self._dicts

    def indexed_attrs(self):
        """names of attributes that hold arrays or lists: they are indexed somewhere in the repository"""
        if getattr(self, '_ix', None) is None:
            self._ix = {'waveform_cor_sar'}
            for m in list(self.modules.values()):
                if m.relpath.startswith('dedop/'):
                    for n in ast.walk(m.tree):
                        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and not (
                                isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)):
                            self._ix.add(n.value.attr)
            # handed on from attribute to attribute
            pairs = [(x.attr, n.value.attr) for m in list(self.modules.values()) if m.relpath.startswith('dedop/')
                     for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute)
                     for x in n.targets if isinstance(x, ast.Attribute)]
            size = -1
            while size != len(self._ix):
                size = len(self._ix)
                for a, b in pairs:
                    if a in self._ix or b in self._ix:
                        self._ix |= {a, b}
        return self._ix

    def step_params(self, cls):
        """names of the parameters a processing step declares (@Parameter), with those of its bases"""
        out = set()
        for c in self.mro(cls):
            for d in c.node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)) \
                        and (d.func.id if isinstance(d.func, ast.Name) else d.func.attr) == 'Parameter':
                    for a in list(d.args[:1]) + [k.value for k in d.keywords if k.arg == 'name']:
                        if isinstance(a, ast.Constant):
                            out.add(a.value)
        return out

    def composite(self, name, setter=False):
        """the property of this name, if it is defined once in the repository, never assigned as an ordinary
        attribute and written in terms of other public attributes of the object only"""
        if getattr(self, '_comp', None) is None:
            self._comp = {}
            defs, stored = {}, set()
            for m in self.modules.values():
                if m.relpath.startswith('spec/') or not m.relpath.startswith('dedop/model/'):
                    continue
                for c in m.classes.values():
                    for n, f in c.methods.items():
                        defs.setdefault(n, []).append((c, f))
                    for n in c.attrs:
                        stored.add(n)
            for n, fs in defs.items():
                if len(fs) == 1 and fs[0][1].is_property and n not in stored and self.only_public(fs[0][1]):
                    c, g = fs[0]
                    st = c.setters.get(n)
                    if st is None or self.only_public(st):
                        self._comp[n] = (g, st)
        r = self._comp.get(name)
        return r[1 if setter else 0] if r else None

    @staticmethod
    def only_public(f):
        if not f.node.args.args:
            return False
        me = f.node.args.args[0].arg
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if not body or not all(isinstance(s, (ast.Return, ast.Assign)) for s in body):
            return False
        ok, n = True, 0
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                n += 1
                if x.attr.startswith('_') or x.attr == f.name:
                    return False
        uses = sum(1 for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == me)
        return n >= 2 and uses == n

    def is_enum(self, cls):
        return any(b.split('.')[-1] in ('Enum', 'IntEnum') for b in self.ext_bases(cls))

    def const_stable(self, module, name):
        """module level name assigned exactly once and never through `global`"""
        if module._nassign.get(name, 0) != 1:
            return False
        if self._global_writes is None:
            gw = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Global):
                        for x in n.names:
                            gw.add((m.name, x))
            self._global_writes = gw
        return (module.name, name) not in self._global_writes
