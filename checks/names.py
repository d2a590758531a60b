"""References resolve: what the code names exists.

Python only notices a name, attribute, parameter or argument that does not exist when the line runs, so a path no
test takes can hide one.  Five reference rules over the syntax trees and the symbol tables of the compiler front end
(symtable); all of them judge only what is closed inside the repository and stay silent elsewhere."""
import ast
import builtins
import symtable
from sa.run import ok, und, Obl

MODULE_NAMES = {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__loader__', '__builtins__',
                '__qualname__', '__module__', '__annotations__', '__class__', '__debug__'}
AUX = {'chd': 'CharacterisationFile', 'cst': 'ConstantsFile', 'cnf': 'ConfigurationFile'}
DYNAMIC = ('setattr', 'exec', 'eval', 'globals', 'locals', 'vars')


def scopes(ctx):
    for m in ctx.repo.modules.values():
        if m.relpath.startswith('dedop/'):
            yield m


def report(rule, where, what):
    # 'known' is a violation unless known_findings.json lists exactly this construct
    return Obl(rule, where, 'known', what)


def parts(m):
    """(qualified name, function node, class or None) of every function of a module, nested ones included"""
    def go(body, pre, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + s.name, s, cls
                yield from go(s.body, pre + s.name + '.', cls)
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, pre + s.name + '.', s.name)
            else:
                for f in ('body', 'orelse', 'finalbody'):
                    yield from go(getattr(s, f, []) or [], pre, cls)
                for h in getattr(s, 'handlers', []) or []:
                    yield from go(h.body, pre, cls)
    return go(m.tree.body, '', None)


def own(fn):
    """the nodes of a function, without those of functions and classes inside it"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


# ---- 1. global names ------------------------------------------------------------------------------------------

def module_level(ctx, m, seen=()):
    """names bound in a module, or None when that cannot be told"""
    if m.name in seen:
        return set()
    top = symtable.symtable(m.text, m.relpath, 'exec')
    out = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    todo = [top]
    while todo:
        t = todo.pop()
        todo.extend(t.get_children())
        if t is not top:
            out |= {s.get_name() for s in t.get_symbols() if s.is_declared_global() and s.is_assigned()}
    for base in m.stars:
        b = ctx.repo.modules.get(base)
        if b is None:
            return None
        o = module_level(ctx, b, seen + (m.name,))
        if o is None:
            return None
        out |= {x for x in o if not x.startswith('_')} | exported(b)
    if m.is_pkg:
        out |= {n[len(m.name) + 1:].split('.')[0] for n in ctx.repo.modules if n.startswith(m.name + '.')}
    return out


def exported(m):
    v = m.consts.get('__all__')
    return {e.value for e in v.elts if isinstance(e, ast.Constant)} if isinstance(v, (ast.List, ast.Tuple)) else set()


def free_names(text, path):
    """(qualified scope, name) of every name a scope takes from the module"""
    def go(t, pre):
        for s in t.get_symbols():
            n = s.get_name()
            if s.is_referenced() and s.is_global() and not s.is_assigned():
                yield pre, n
        for c in t.get_children():
            yield from go(c, (pre + '.' if pre else '') + c.get_name() if c.get_type() != 'annotation' else pre)
    return go(symtable.symtable(text, path, 'exec'), '')


def names_resolve(ctx):
    """every name a scope takes from its module is bound there, imported or built in"""
    n = 0
    for m in scopes(ctx):
        bound = module_level(ctx, m)
        if bound is None or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'exec'
                                for x in ast.walk(m.tree)):
            continue
        missing = {}
        for scope, name in free_names(m.text, m.relpath):
            n += 1
            if name not in bound and not hasattr(builtins, name) and name not in MODULE_NAMES:
                missing.setdefault((scope, name), 1)
        guarded = {x.id for t in ast.walk(m.tree) if isinstance(t, ast.Try) and any(
            catches(h, 'NameError') for h in t.handlers) for s in t.body for x in ast.walk(s)
            if isinstance(x, ast.Name)}
        for name in sorted({x for _, x in missing} - guarded):
            # one construct per module and name: moving the line to another function changes nothing
            yield report('names', '%s: %s' % (m.relpath, name), 'the name %s is used in %s but bound nowhere' % (
                name, ', '.join(sorted(q or 'the module' for q, x in missing if x == name))))
    if n:
        yield ok('names', 'module names', n=n)


def catches(h, name):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(getattr(t, 'id', getattr(t, 'attr', '')) in (name, 'Exception', 'BaseException') for t in ts)


# ---- 2. imported names and members of modules --------------------------------------------------------------------

def imports_resolve(ctx):
    """every name imported from a module of the repository exists there"""
    n = 0
    for m in scopes(ctx):
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ImportFrom):
                base = m._abs(node)
                b = ctx.repo.modules.get(base)
                if b is None:
                    if base.split('.')[0] == 'dedop' and not any(k.startswith(base + '.') for k in ctx.repo.modules):
                        yield report('imports', '%s %s' % (m.relpath, base), 'there is no module %s' % base)
                    continue
                have = module_level(ctx, b)
                for a in node.names:
                    if a.name == '*' or have is None:
                        continue
                    n += 1
                    if a.name not in have and base + '.' + a.name not in ctx.repo.modules:
                        yield report('imports', '%s %s.%s' % (m.relpath, base, a.name),
                                     '%s has no %s' % (base, a.name))
    if n:
        yield ok('imports', 'imported names', n=n)


# ---- 3. members of objects of the repository's classes ---------------------------------------------------------------

def members(ctx, cls, subs):
    """names an object of the class can have, or None when the class is not closed"""
    ext = [b for b in ctx.repo.ext_bases(cls) if b.split('[')[0] not in (
        'object', 'Enum', 'IntEnum', 'enum.Enum', 'enum.IntEnum', 'ABC', 'abc.ABC', 'Exception', 'Warning', 'TypeError',
        'ValueError', 'RuntimeError')]
    if ext or any(k.arg == 'metaclass' and ast.unparse(k.value).split('.')[-1] != 'ABCMeta'
                  for c in ctx.repo.mro(cls) for k in c.node.keywords):
        return None
    out = set(dir(object)) | {'__dict__', '__module__', '__annotations__', '__slots__', '__weakref__'}
    for b in ctx.repo.ext_bases(cls):
        if 'Enum' in b:
            out |= {'name', 'value', '_value_', '_name_', '__members__'}
        elif hasattr(builtins, b):
            out |= set(dir(getattr(builtins, b)))
    for c in ctx.repo.mro(cls) + subs:
        if any(x in c.methods for x in ('__getattr__', '__getattribute__')):
            return None
        for s in ast.walk(c.node):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store):
                out.add(s.attr)
            elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                out.add(s.id)
            elif isinstance(s, ast.Call) and getattr(s.func, 'id', '') in DYNAMIC + ('delattr',):
                return None
            elif isinstance(s, ast.Attribute) and s.attr == '__dict__':
                return None
    return out


def attr_stores(ctx):
    """attribute names assigned on anything but self: they may be given to any object"""
    out = set()
    for m in ctx.repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                    isinstance(n.value, ast.Name) and n.value.id == 'self'):
                out.add(n.attr)
    return out


def members_resolve(ctx):
    """every member asked of an object, class or module of the repository can exist"""
    n = 0
    every = [c for m in ctx.repo.modules.values() for c in m.classes.values()]
    given = attr_stores(ctx)
    for m in scopes(ctx):
        for cls in m.classes.values():
            subs = [c for c in every if c is not cls and cls in ctx.repo.mro(c)]
            mixin = [x for c in subs for x in ctx.repo.mro(c)]
            have = members(ctx, cls, subs + [c for c in mixin if c not in subs])
            if have is None:
                continue
            for fn in cls.node.body:
                if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                    continue
                if any(ast.unparse(d) in ('staticmethod',) for d in fn.decorator_list):
                    continue
                me = fn.args.args[0].arg
                if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) or
                       isinstance(x, ast.arg) and x.arg == me and x is not fn.args.args[0] for x in ast.walk(fn)):
                    continue
                meta = set(dir(type)) if fn.decorator_list or fn.name in ('__new__', '__init_subclass__') else set()
                guarded = {id(x) for t in ast.walk(fn) if isinstance(t, ast.Try) and any(
                    catches(h, 'AttributeError') for h in t.handlers) for s in t.body for x in ast.walk(s)}
                asked = {c.args[1].value for c in ast.walk(fn) if isinstance(c, ast.Call) and getattr(
                    c.func, 'id', '') in ('hasattr', 'getattr') and len(c.args) > 1 and
                    isinstance(c.args[1], ast.Constant)}
                for x in ast.walk(fn):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(
                            x.value, ast.Name) and x.value.id == me and id(x) not in guarded:
                        n += 1
                        if x.attr not in have | given | asked | meta:
                            yield report('members', '%s:%s.%s %s' % (m.relpath, cls.name, fn.name, x.attr),
                                         'objects of %s never get a member %s' % (cls.name, x.attr))
        # members of the enumerations and modules of the repository
        for q, fn, _ in parts(m):
            local = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} | {
                x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for x in own(fn):
                if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
                    continue
                root = x.value
                while isinstance(root, ast.Attribute):
                    root = root.value
                if not isinstance(root, ast.Name) or root.id in local:
                    continue
                r = ctx.repo.resolve_dotted(m, x.value)
                if r and r[0] == 'class':
                    have = members(ctx, r[1], [])
                    if have is None:
                        continue
                    n += 1
                    if x.attr not in have | given and x.attr not in dir(type):
                        yield report('members', '%s:%s %s.%s' % (m.relpath, q, r[1].name, x.attr),
                                     '%s has no member %s' % (r[1].name, x.attr))
                elif r and r[0] == 'mod' and r[1] in ctx.repo.modules:
                    have = module_level(ctx, ctx.repo.modules[r[1]])
                    if have is None:
                        continue
                    n += 1
                    if x.attr not in have | MODULE_NAMES | given:
                        yield report('members', '%s:%s %s.%s' % (m.relpath, q, r[1], x.attr),
                                     'the module %s has no %s' % (r[1], x.attr))
    if n:
        yield ok('members', 'members of the repository\'s own classes and modules', n=n)


# ---- 4. configuration parameters -------------------------------------------------------------------------------------

def parameters_resolve(ctx):
    """every configuration value the code asks for is a declared parameter of that file"""
    decl = {}
    for k, cn in AUX.items():
        cls = ctx.repo.class_by_name(cn)
        have = members(ctx, cls, []) if cls else None
        if have is None:
            ext = set()
            for c in ctx.repo.mro(cls) if cls else []:
                for s in ast.walk(c.node):
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        ext.add(s.name)
                    elif isinstance(s, (ast.Name, ast.Attribute)) and isinstance(s.ctx, ast.Store):
                        ext.add(getattr(s, 'id', None) or s.attr)
            have = ext | set(dir(object)) if ext else None
        decl[k] = have
    n, lost = 0, {}
    for m in ctx.repo.modules.values():
        if not m.relpath.startswith(('dedop/model/', 'dedop/proc/', 'dedop/data/', 'dedop/conf/')):
            continue
        for q, fn, _ in parts(m):
            for x in own(fn):
                if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
                    continue
                b = x.value
                k = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                if isinstance(b, ast.Attribute) and not (isinstance(b.value, ast.Name)):
                    continue
                if k in AUX and decl[k] is not None:
                    n += 1
                    if x.attr not in decl[k]:
                        lost.setdefault((m.relpath, k, x.attr), set()).add(q)
    for (path, k, name), qs in sorted(lost.items()):
        yield report('parameters', '%s: %s.%s' % (path, k, name), '%s declares no parameter %s, used in %s' % (
            AUX[k], name, ', '.join(sorted(qs))))
    if n:
        yield ok('parameters', 'configuration parameters asked for', n=n)
    else:
        yield und('parameters', '-', 'no configuration parameter is read')


# ---- 5. arguments ------------------------------------------------------------------------------------------------------

def fits(fn, call, skip):
    """None when the call fits the signature, else what does not"""
    a = fn.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    if len(call.args) > len(pos) and not a.vararg:
        return 'too many arguments'
    got = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in got:
            return 'the argument %s is given twice' % k.arg
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return 'there is no parameter %s' % k.arg
        got.add(k.arg)
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in got]
    return 'no value for %s' % ', '.join(miss) if miss else None


def plain(f):
    return all(d in ('staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod') for d in f.decor)


def arguments_fit(ctx):
    """every call of a function or class of the repository fits its signature"""
    n = 0
    every = [c for m in ctx.repo.modules.values() for c in m.classes.values()]
    for m in scopes(ctx):
        for q, fn, cname in parts(m):
            local = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)} | {
                x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
                x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
            cls = m.classes.get(cname) if cname else None
            for call in own(fn):
                if not isinstance(call, ast.Call):
                    continue
                targets = []
                f = call.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and cls \
                        and q.count('.') == 1 and 'self' not in {x.id for x in ast.walk(fn) if isinstance(
                            x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                    if any(f.attr in c.attrs or stored_on_self(c, f.attr) for c in ctx.repo.mro(cls)):
                        continue
                    # the method of the class itself or of a subclass
                    ts = [ctx.repo.find_method(c, f.attr) for c in every if cls in ctx.repo.mro(c)]
                    if all(t is not None and not t.is_property and plain(t) for t in ts):
                        targets = [(t, 0 if t.is_static else 1) for t in {id(t): t for t in ts}.values()]
                else:
                    root = f
                    while isinstance(root, ast.Attribute):
                        root = root.value
                    if not isinstance(root, ast.Name) or root.id in local:
                        continue
                    r = ctx.repo.resolve_dotted(m, f)
                    if r and r[0] == 'func' and plain(r[1]) and not redefined(r[1]):
                        t = r[1]
                        targets = [(t, 0 if t.cls is None or not t.is_classmethod else 1)]
                    elif r and r[0] == 'class' and not ctx.repo.ext_bases(r[1]) and not r[1].node.decorator_list \
                            and not any(c.node.keywords for c in ctx.repo.mro(r[1])):
                        t = ctx.repo.find_method(r[1], '__init__')
                        if t is not None and not ctx.repo.find_method(r[1], '__new__') and plain(t):
                            targets = [(t, 1)]
                if targets:
                    n += 1
                    whys = [fits(t.node, call, skip) for t, skip in targets]
                    if all(whys):
                        why, t = whys[0], targets[0][0]
                        yield report('arguments', '%s:%s %s' % (m.relpath, q, ast.unparse(f)),
                                     'the call of %s does not fit its signature: %s' % (t.qual, why))
    if n:
        yield ok('arguments', 'calls of the repository\'s own functions', n=n)


def redefined(f):
    body = f.cls.node if f.cls else f.module.tree
    return sum(isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == f.name or isinstance(s, ast.Name) and
               s.id == f.name and isinstance(s.ctx, ast.Store) for s in ast.walk(body)) > 1


def stored_on_self(c, name):
    return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name for x in ast.walk(c.node))


RULES = {'C28': [names_resolve, imports_resolve, members_resolve, arguments_fit, parameters_resolve]}
