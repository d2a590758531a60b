"""behaviour-preserving rewrites of the analysed functions; every check has to stay quiet on them.

python3 tools/refactor.py [-t transformation,...] [-f substring of path:function] [-n limit] [-r]
-r: additionally run the table rules of all properties (slow)"""
import ast
import argparse
import copy
import random
import re
import sys
import threading
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, __file__.rsplit('/', 2)[0])

_walk = ast.walk


def own_walk(n):
    return (x for x in _walk(n) if not isinstance(x, (ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)))  # shared singletons


ast.walk = own_walk

TERM = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def func_node(tree, qual):
    body, node = tree.body, None
    for p in qual.split('.'):
        node = next((n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p), None)
        if node is None:
            return None
        body = node.body
    return node if isinstance(node, ast.FunctionDef) else None


def blocks(fn):
    """all statement lists of a function (not of nested functions)"""
    stack = [fn.body]
    while stack:
        b = stack.pop()
        yield b
        for s in b:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                x = getattr(s, f, None)
                if x and isinstance(x, list):
                    stack.append(x)
            for h in getattr(s, 'handlers', []):
                stack.append(h.body)


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}


def stored(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | \
           {h.name for h in ast.walk(node) if isinstance(h, ast.ExceptHandler) and h.name} | \
           {n.name for n in ast.walk(node) if isinstance(n, ast.FunctionDef)} | \
           {a.asname or a.name.split('.')[0] for n in ast.walk(node) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}


def evaluated(node):
    """string constants handed to numexpr.evaluate, whose names are read from the calling frame"""
    return [a for c in ast.walk(node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'evaluate'
            for a in c.args[:1] if isinstance(a, ast.Constant) and isinstance(a.value, str)]


def loaded(node):
    r = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    for a in evaluated(node):
        r |= set(re.findall(r'[A-Za-z_]\w*', a.value))
    return r


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))


def decorators(fn):
    return {getattr(d, 'id', getattr(d, 'attr', '?')) for d in fn.decorator_list}


def name(x, ctx=None):
    return ast.Name(id=x, ctx=ctx or ast.Load())


def assign(x, v):
    return ast.Assign(targets=[name(x, ast.Store())], value=v)


# every transformation: generator of edits on a fresh copy, given (copy function) -> yields site count; see variants()

def t_rename(fn, k):
    if k:
        return False
    bad = {n for g in ast.walk(fn) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}
    imported = {a.asname or a.name.split('.')[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    nested = {n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn}
    nparams = {p for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for p in params(n)}
    loc = stored(fn) - nparams - bad - imported - nested - {fn.name}
    if not loc:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = n.id + '_q'
        elif isinstance(n, ast.ExceptHandler) and n.name in loc:
            n.name += '_q'
    for a in evaluated(fn):
        a.value = re.sub(r'[A-Za-z_]\w*', lambda m: m.group() + '_q' if m.group() in loc else m.group(), a.value)
    return True


def nth(it, k):
    for i, x in enumerate(it):
        if i == k:
            return x
    return None


def t_invert_if(fn, k):
    n = nth((x for x in ast.walk(fn) if isinstance(x, ast.If) and x.orelse), k)
    if n is None:
        return False
    n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    n.body, n.orelse = n.orelse, n.body
    return True


def t_guard(fn, k):
    """if c: X -> if not c: pass else: X"""
    n = nth((x for x in ast.walk(fn) if isinstance(x, ast.If) and not x.orelse), k)
    if n is None:
        return False
    n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    n.body, n.orelse = [ast.Pass()], n.body
    return True


def t_else_after_return(fn, k):
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b[:-1])
             if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], TERM)]
    if k >= len(sites):
        return False
    b, i = sites[k]
    b[i].orelse = b[i + 1:]
    del b[i + 1:]
    return True


def t_drop_else(fn, k):
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b)
             if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], TERM)]
    if k >= len(sites):
        return False
    b, i = sites[k]
    rest, b[i].orelse = b[i].orelse, []
    b[i + 1:i + 1] = rest
    return True


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def t_flip(fn, k):
    n = nth((x for x in ast.walk(fn) if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in FLIP), k)
    if n is None:
        return False
    n.ops = [FLIP[type(n.ops[0])]()]
    n.left, n.comparators = n.comparators[0], [n.left]
    return True


def t_ifexp_stmt(fn, k):
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b)
             if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp)]
    if k >= len(sites):
        return False
    b, i = sites[k]
    s = b[i]
    a, c = copy.deepcopy(s), copy.deepcopy(s)
    a.value, c.value = s.value.body, s.value.orelse
    b[i] = ast.If(test=s.value.test, body=[a], orelse=[c])
    return True


def t_stmt_ifexp(fn, k):
    def good(s):
        return isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and \
            type(s.body[0]) is type(s.orelse[0]) and isinstance(s.body[0], (ast.Assign, ast.Return)) and \
            s.body[0].value is not None and s.orelse[0].value is not None and \
            (isinstance(s.body[0], ast.Return) or ast.dump(ast.Tuple(elts=s.body[0].targets)) == ast.dump(ast.Tuple(elts=s.orelse[0].targets)))
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b) if good(s)]
    if k >= len(sites):
        return False
    b, i = sites[k]
    s = b[i]
    r = s.body[0]
    r.value = ast.IfExp(test=s.test, body=r.value, orelse=s.orelse[0].value)
    b[i] = r
    return True


def t_alias(fn, k):
    """cnf = self.cnf"""
    if not fn.args.args or fn.args.args[0].arg != 'self':
        return False
    cand = []
    for a in ('cnf', 'chd', 'cst', '_dset', 'workspace_manager'):
        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.value, ast.Name) and n.value.id == 'self']
        if uses and all(isinstance(u.ctx, ast.Load) for u in uses) and (a + '_al') not in stored(fn):
            cand.append(a)
    if k >= len(cand) or fn.name == '__init__':
        return False
    a = cand[k]

    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == a and isinstance(n.value, ast.Name) and n.value.id == 'self':
                return name(a + '_al')
            return n
    fn.body = [R().visit(s) for s in fn.body]
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(i, assign(a + '_al', ast.Attribute(value=name('self'), attr=a, ctx=ast.Load())))
    return True


def t_temp(fn, k):
    """first argument of the outermost call, or left operand, into a local"""
    def part(s):
        v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
        if isinstance(v, ast.Call) and v.args and not isinstance(v.args[0], (ast.Constant, ast.Name, ast.Starred)) and \
                isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(v.func)):
            return v.args, 0
        if isinstance(v, ast.BinOp) and not isinstance(v.left, (ast.Constant, ast.Name)):
            return v, 'left'
        if isinstance(v, ast.Subscript) and not isinstance(v.value, ast.Name):
            return v, 'value'
        return None
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b) if part(s)]
    if k >= len(sites):
        return False
    b, i = sites[k]
    o, f = part(b[i])
    if f == 0:
        v, o[0] = o[0], name('tmp_q')
    else:
        v = getattr(o, f)
        setattr(o, f, name('tmp_q'))
    b.insert(i, assign('tmp_q', v))
    return True


def t_return_temp(fn, k):
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name)]
    if k >= len(sites):
        return False
    b, i = sites[k]
    b[i:i + 1] = [assign('result_q', b[i].value), ast.Return(value=name('result_q'))]
    return True


def t_inline(fn, k):
    sites = []
    for b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                x = s.targets[0].id
                nx = b[i + 1]
                if not isinstance(nx, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
                    continue
                uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x]
                if len(uses) != 2 or any(isinstance(c, (ast.Call, ast.List, ast.Dict, ast.ListComp)) for c in ast.walk(s.value)):
                    continue
                u = [n for n in ast.walk(nx) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load)]
                if len(u) != 1 or any(isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp, ast.SetComp)) for c in ast.walk(nx)):
                    continue
                if x in params(fn):
                    continue
                sites.append((b, i, x))
    if k >= len(sites):
        return False
    b, i, x = sites[k]
    v = b[i].value

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            return v if n.id == x and isinstance(n.ctx, ast.Load) else n
    b[i + 1] = R().visit(b[i + 1])
    del b[i]
    return True


def used_after(fn, loop, x):
    seen = False
    for n in ast.walk(fn):
        pass
    inside = {id(n) for n in ast.walk(loop)}
    return any(isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(fn))


def own_continue(loop):
    stack = list(loop.body)
    while stack:
        s = stack.pop()
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            stack.extend(getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []):
            stack.extend(h.body)
    return False


def t_for_while(fn, k):
    def good(s):
        return isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
            s.iter.func.id == 'range' and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) and not own_continue(s) and \
            not used_after(fn, s, s.target.id) and s.target.id not in {x for y in s.body for x in stored(y)}
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b) if good(s)]
    if k >= len(sites):
        return False
    b, i = sites[k]
    s = b[i]
    x = s.target.id
    b[i:i + 1] = [assign('end_q', s.iter.args[0]), assign(x, ast.Constant(0)),
                  ast.While(test=ast.Compare(left=name(x), ops=[ast.Lt()], comparators=[name('end_q')]),
                            body=s.body + [ast.AugAssign(target=name(x, ast.Store()), op=ast.Add(), value=ast.Constant(1))], orelse=[])]
    return True


def t_enumerate_range(fn, k):
    def good(s):
        return isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and \
            len(s.iter.args) == 1 and isinstance(s.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(s.target, ast.Tuple) and \
            isinstance(s.target.elts[0], ast.Name)
    sites = [s for s in ast.walk(fn) if good(s)]
    if k >= len(sites):
        return False
    s = sites[k]
    seq = s.iter.args[0]
    s.body.insert(0, ast.Assign(targets=[s.target.elts[1]], value=ast.Subscript(value=copy.deepcopy(seq), slice=name(s.target.elts[0].id), ctx=ast.Load())))
    s.iter = ast.Call(func=name('range'), args=[ast.Call(func=name('len'), args=[seq], keywords=[])], keywords=[])
    s.target = s.target.elts[0]
    return True


def t_enumerate(fn, k):
    n = nth((x for x in ast.walk(fn) if isinstance(x, ast.For)), k)
    if n is None:
        return False
    n.target = ast.Tuple(elts=[name('count_q', ast.Store()), n.target], ctx=ast.Store())
    n.iter = ast.Call(func=name('enumerate'), args=[n.iter], keywords=[])
    return True


def t_range_for_each(fn, k):
    """for i in range(len(seq)) -> for i, item in enumerate(seq), reads of seq[i] replaced"""
    def good(s):
        return isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and \
            len(s.iter.args) == 1 and isinstance(s.iter.args[0], ast.Call) and isinstance(s.iter.args[0].func, ast.Name) and \
            s.iter.args[0].func.id == 'len' and isinstance(s.target, ast.Name)
    sites = [s for s in ast.walk(fn) if good(s)]
    if k >= len(sites):
        return False
    s = sites[k]
    seq = s.iter.args[0].args[0]
    d = ast.dump(seq)
    s.iter = ast.Call(func=name('enumerate'), args=[seq], keywords=[])
    i = s.target.id
    s.target = ast.Tuple(elts=[s.target, name('item_q', ast.Store())], ctx=ast.Store())

    class R(ast.NodeTransformer):
        def visit_Subscript(self, n):
            self.generic_visit(n)
            if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and n.slice.id == i and ast.dump(n.value) == d:
                return name('item_q')
            return n
    s.body = [R().visit(x) for x in s.body]
    return True


def t_while_true(fn, k):
    n = nth((x for x in ast.walk(fn) if isinstance(x, ast.While) and not x.orelse and not (isinstance(x.test, ast.Constant))), k)
    if n is None:
        return False
    n.body.insert(0, ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[]))
    n.test = ast.Constant(True)
    return True


def t_comp_loop(fn, k):
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b)
             if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1]
    if k >= len(sites):
        return False
    b, i = sites[k]
    s = b[i]
    c = s.value
    g = c.generators[0]
    own = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    for n in ast.walk(c):
        if isinstance(n, ast.Name) and n.id in own:
            n.id += '_c'
    st = ast.Expr(ast.Call(func=ast.Attribute(value=name('list_q'), attr='append', ctx=ast.Load()), args=[c.elt], keywords=[]))
    body = [st]
    for t in reversed(g.ifs):
        body = [ast.If(test=t, body=body, orelse=[])]
    s.value = name('list_q')
    b[i:i] = [assign('list_q', ast.List(elts=[], ctx=ast.Load())), ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
    return True


def t_nested_if(fn, k):
    n = nth((x for x in ast.walk(fn) if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And)), k)
    if n is None:
        return False
    a, rest = n.test.values[0], n.test.values[1:]
    t = rest[0] if len(rest) == 1 else ast.BoolOp(op=ast.And(), values=rest)
    n.test, n.body = a, [ast.If(test=t, body=n.body, orelse=[])]
    return True


def t_demorgan(fn, k):
    n = nth((x for x in ast.walk(fn) if isinstance(x, (ast.If, ast.While, ast.IfExp)) and isinstance(x.test, ast.BoolOp)), k)
    if n is None:
        return False
    op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
    n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in n.test.values]))
    return True


def t_noop(fn, k):
    if k:
        return False
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body.insert(i, assign('unused_q', ast.Constant(0)))
    return True


def t_aug(fn, k):
    n = None
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b)
             if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) and
             isinstance(s.target, (ast.Name, ast.Attribute))]
    if k >= len(sites):
        return False
    b, i = sites[k]
    s = b[i]
    l = copy.deepcopy(s.target)
    l.ctx = ast.Load()
    b[i] = ast.Assign(targets=[s.target], value=ast.BinOp(left=l, op=s.op, right=s.value))
    return True


def dotted(n):
    return ast.unparse(n)


def t_swap(fn, k):
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
            not any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) for x in ast.walk(s))

    def reads(s):
        out = set()
        for n in ast.walk(s):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                out.add(dotted(n))
        return out
    sites = []
    for b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if simple(s) and simple(t):
                ts, tt = dotted(s.targets[0]), dotted(t.targets[0])
                # attributes of one name in two spellings could alias; only swap distinct attribute names
                if ts.split('.')[-1] == tt.split('.')[-1]:
                    continue
                rs, rt = reads(s), reads(t)
                if any(x.split('.')[-1] == ts.split('.')[-1] or x == ts for x in rt) or any(x.split('.')[-1] == tt.split('.')[-1] for x in rs):
                    continue
                sites.append((b, i))
    if k >= len(sites):
        return False
    b, i = sites[k]
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def t_untuple(fn, k):
    def good(s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple)
                and len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(x, (ast.Name, ast.Attribute)) for x in s.targets[0].elts)):
            return False
        w = {dotted(x) for x in s.targets[0].elts}
        r = {dotted(n) for n in ast.walk(s.value) if isinstance(n, (ast.Name, ast.Attribute))}
        return not w & r
    sites = [(b, i) for b in blocks(fn) for i, s in enumerate(b) if good(s)]
    if k >= len(sites):
        return False
    b, i = sites[k]
    s = b[i]
    b[i:i + 1] = [ast.Assign(targets=[t], value=v) for t, v in zip(s.targets[0].elts, s.value.elts)]
    return True


# ------------------------------------------------ transformations that add functions: (tree, qual, k) -> bool

def has_own(stmts, kinds):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, kinds):
                return True
    return False


def loose_loop_ctrl(stmts):
    """break / continue that leave the block"""
    stack = [(s, 0) for s in stmts]
    while stack:
        s, d = stack.pop()
        if isinstance(s, (ast.Break, ast.Continue)) and d == 0:
            return True
        e = d + (1 if isinstance(s, (ast.For, ast.While)) else 0)
        for f in ('body', 'orelse', 'finalbody'):
            stack.extend((x, e) for x in getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []):
            stack.extend((x, e) for x in h.body)
    return False


def block_sites(fn):
    out = []
    for b in blocks(fn):
        for i in range(len(b)):
            for j in range(i + 2, min(len(b), i + 6) + 1):
                st = b[i:j]
                if has_own(st, (ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)) or loose_loop_ctrl(st):
                    continue
                if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for s in st for n in ast.walk(s)):
                    continue
                if isinstance(st[0], ast.Expr) and isinstance(st[0].value, ast.Constant):
                    continue
                out.append((b, i, j))
    return out


def definitely(stmts):
    out = set()
    for s in stmts:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                out |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            out.add(s.target.id)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            out |= stored(s)
        elif isinstance(s, ast.If):
            out |= definitely(s.body) & definitely(s.orelse)
        elif isinstance(s, ast.With):
            out |= definitely(s.body)
    return out


def fresh(tree):
    used = {n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)}
    return next(x for x in ('helper_q', 'helper_r', 'helper_s', 'helper_t') if x not in used)


def extract(tree, qual, k, nested=False):
    fn = func_node(tree, qual)
    if is_gen(fn):
        return False
    sites = block_sites(fn)
    if k >= len(sites):
        return False
    b, i, j = sites[k]
    st = b[i:j]
    loc = (stored(fn) | params(fn))
    comp = {n.id for s in st for c in ast.walk(s) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
    inside = {id(n) for s in st for n in ast.walk(s)}
    w = set().union(*[stored(s) for s in st]) - comp
    # names live after the block (anything read elsewhere in the function counts, loops included)
    if w & {n for g in ast.walk(fn) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}:
        return False
    ev = set().union(set(), *[set(re.findall(r'[A-Za-z_]\w*', a.value)) for a in evaluated(fn) if id(a) not in inside])
    outs = sorted(x for x in w if x in ev or any(isinstance(n, ast.Name) and n.id == x and id(n) not in inside for n in ast.walk(fn)))
    ins = sorted((set().union(*[loaded(s) for s in st]) | {n.target.id for s in st for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}) & loc - comp)
    # inputs must be bound before the block: parameters or names definitely assigned earlier in enclosing order;
    # otherwise the rewritten code could read an unbound name
    before = set(params(fn))

    def collect(body):
        for s in body:
            if any(id(n) in inside for n in ast.walk(s)):
                if s in st:
                    return True
                for f in ('target',):
                    t = getattr(s, f, None)
                    if t is not None and isinstance(s, ast.For):
                        before.update(n.id for n in ast.walk(t) if isinstance(n, ast.Name))
                if isinstance(s, ast.With):
                    for it in s.items:
                        if it.optional_vars is not None:
                            before.update(n.id for n in ast.walk(it.optional_vars) if isinstance(n, ast.Name))
                for f in ('body', 'orelse', 'finalbody'):
                    x = getattr(s, f, None)
                    if x and any(id(n) in inside for y in x for n in ast.walk(y)):
                        return collect(x)
                for h in getattr(s, 'handlers', []):
                    if any(id(n) in inside for y in h.body for n in ast.walk(y)):
                        if h.name:
                            before.add(h.name)
                        return collect(h.body)
                return True
            before.update(definitely([s]))
        return False
    collect(fn.body)
    d = definitely(st)
    first_reads = [x for x in ins if x not in before]
    # names first assigned inside are no inputs if every read follows: accept only when definitely assigned first
    ins = [x for x in ins if x in before]
    if any(x not in d for x in first_reads):
        return False
    if any(x not in d and x not in before for x in outs):
        return False
    outs_needed = outs
    ins = sorted(set(ins) | {x for x in outs if x not in d})
    if any(x not in before for x in ins):
        return False
    method = '.' in qual and not (decorators(fn) & {'staticmethod', 'classmethod'}) and bool(fn.args.args)
    selfn = fn.args.args[0].arg if method else None
    new = fresh(tree)
    args = [x for x in ins if x != selfn]
    ret = []
    if outs_needed:
        v = name(outs_needed[0]) if len(outs_needed) == 1 else ast.Tuple(elts=[name(x) for x in outs_needed], ctx=ast.Load())
        ret = [ast.Return(value=v)]
    a = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
    if nested:
        if set(outs_needed) & set(args):
            pass
        a.args = [ast.arg(arg=x) for x in args]
        h = ast.FunctionDef(name=new, args=a, body=st + ret, decorator_list=[])
        call = ast.Call(func=name(new), args=[name(x) for x in args], keywords=[])
    elif method:
        a.args = [ast.arg(arg=selfn)] + [ast.arg(arg=x) for x in args]
        h = ast.FunctionDef(name=new, args=a, body=st + ret, decorator_list=[])
        call = ast.Call(func=ast.Attribute(value=name(selfn), attr=new, ctx=ast.Load()), args=[name(x) for x in args], keywords=[])
    else:
        full = [x for x in ins]
        a.args = [ast.arg(arg=x) for x in full]
        h = ast.FunctionDef(name=new, args=a, body=st + ret, decorator_list=[])
        call = ast.Call(func=name(new), args=[name(x) for x in full], keywords=[])
    if outs_needed:
        t = name(outs_needed[0], ast.Store()) if len(outs_needed) == 1 else ast.Tuple(elts=[name(x, ast.Store()) for x in outs_needed], ctx=ast.Store())
        repl = ast.Assign(targets=[t], value=call)
    else:
        repl = ast.Expr(call)
    b[i:j] = [repl]
    if nested:
        pos = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(pos, h)
        return True
    parts = qual.split('.')
    owner = tree
    if method:
        for p in parts[:-1]:
            owner = next(n for n in owner.body if isinstance(n, ast.ClassDef) and n.name == p)
        owner.body.append(h)
    else:
        top = next(i for i, n in enumerate(tree.body) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == parts[0])
        tree.body.insert(top, h)
    return True


def t_extract(tree, qual, k):
    return extract(tree, qual, k)


def t_closure(tree, qual, k):
    return extract(tree, qual, k, nested=True)


def t_delegate(tree, qual, k):
    """the whole body moves to a helper"""
    if k:
        return False
    fn = func_node(tree, qual)
    dec = decorators(fn)
    if is_gen(fn) or '.' not in qual or dec - {'property', 'staticmethod', 'classmethod'} or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
        return False
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for n in ast.walk(fn)):
        return False
    owner = tree
    for p in qual.split('.')[:-1]:
        owner = next(n for n in owner.body if isinstance(n, ast.ClassDef) and n.name == p)
    h = copy.deepcopy(fn)
    new = fresh(tree)
    h.name = new
    h.decorator_list = [d for d in h.decorator_list if getattr(d, 'id', '') in ('staticmethod', 'classmethod')]
    h.args.defaults = []
    names = [a.arg for a in fn.args.args]
    if 'staticmethod' in dec:
        call = ast.Call(func=ast.Attribute(value=name(qual.split('.')[0]), attr=new, ctx=ast.Load()), args=[name(x) for x in names], keywords=[])
    else:
        call = ast.Call(func=ast.Attribute(value=name(names[0]), attr=new, ctx=ast.Load()), args=[name(x) for x in names[1:]], keywords=[])
    fn.body = [ast.Return(value=call)]
    owner.body.append(h)
    return True


def t_const(tree, qual, k):
    """a literal becomes a module constant"""
    fn = func_node(tree, qual)
    dflt = {id(x) for d in fn.args.defaults + fn.args.kw_defaults if d for x in ast.walk(d)}
    fstr = {id(x) for n in ast.walk(fn) if isinstance(n, ast.JoinedStr) for x in ast.walk(n)}
    deco = {id(x) for d in fn.decorator_list for x in ast.walk(d)}
    doc = {id(s.value) for b in blocks(fn) for s in b if isinstance(s, ast.Expr)}
    sites = [n for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, (int, float, str)) and not isinstance(n.value, bool)
             and id(n) not in dflt | fstr | deco | doc and n.value not in (0, 1, '')]
    if k >= len(sites):
        return False
    n = sites[k]

    class R(ast.NodeTransformer):
        def visit_Constant(self, x):
            return name('VALUE_Q') if x is n else x
    v = n.value
    fn.body = [R().visit(s) for s in fn.body]
    i = 0
    for i, s in enumerate(tree.body):
        if not (isinstance(s, (ast.Import, ast.ImportFrom)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))):
            break
    tree.body.insert(i, assign('VALUE_Q', ast.Constant(v)))
    return True


def t_comment(tree, qual, k):
    if k:
        return False
    tree.body.append(ast.Pass())
    return True


LOCAL = {n[2:]: f for n, f in list(globals().items()) if n.startswith('t_') and n not in ('t_extract', 't_closure', 't_delegate', 't_const', 't_comment')}
GLOBAL = {'extract': t_extract, 'closure': t_closure, 'delegate': t_delegate, 'const': t_const}
MAXSITES = 400


def variants(text, qual, which, per=0, seed=1):
    tree = ast.parse(text)
    if func_node(tree, qual) is None:
        return
    base = ast.unparse(tree)
    for t in which:
        ks = range(min(MAXSITES, per) if per and t == 'const' else MAXSITES)
        if per and t in ('extract', 'closure'):
            m = len(block_sites(func_node(tree, qual)))
            ks = random.Random(str(seed) + qual).sample(range(m), min(per, m))
        for k in ks:
            tr = copy.deepcopy(tree)
            if t in LOCAL:
                r = LOCAL[t](func_node(tr, qual), k)
                if not r:
                    break
            else:
                r = GLOBAL[t](tr, qual, k)
                if not r:
                    if t in ('extract', 'closure') and k < len(block_sites(func_node(tree, qual))):
                        continue
                    break
            ast.fix_missing_locations(tr)
            try:
                s = ast.unparse(tr)
                compile(s, 'x', 'exec')
            except Exception as x:
                continue
            if s != base:
                yield t, k, s


def chains(text, qual, which, per, length, seed):
    """random sequences of rewrites of one function"""
    for c in range(per):
        rnd = random.Random('%s %s %d' % (seed, qual, c))
        tree = ast.parse(text)
        if func_node(tree, qual) is None:
            return
        done = []
        for _ in range(length * 4):
            if len(done) >= length:
                break
            t = rnd.choice(which)
            if t in GLOBAL and t in done or (t in ('delegate', 'noop') and len(done) < 3):
                continue
            tr = copy.deepcopy(tree)
            n = len(block_sites(func_node(tr, qual))) if t in ('extract', 'closure') else (1 if t in ('rename', 'delegate', 'noop') else 6)
            if not n:
                continue
            k = rnd.randrange(n)
            try:
                r = LOCAL[t](func_node(tr, qual), k) if t in LOCAL else GLOBAL[t](tr, qual, k)
                if not r:
                    continue
                ast.fix_missing_locations(tr)
                s = ast.unparse(tr)
                compile(s, 'x', 'exec')
            except Exception:
                continue
            if t == 'rename' and t in done:
                continue
            tree = ast.parse(s)
            done.append(t)
        if done:
            yield '+'.join(done), c, ast.unparse(tree)


def work(job):
    rel, qual, t, k, text, names, rules = job
    out = []

    def go():
        from sa import run
        try:
            ctx = run.Ctx(overrides={rel: text})
            for e in ctx.entries:
                if e.name in names and not e.known:
                    try:
                        res = ctx.compare_entry(e)
                    except run.AnchorMissing as x:
                        out.append(('undecided', e.name, '*', str(x)))
                        continue
                    known = set()
                    for kk in ctx.entries:
                        if kk.known == e.name:
                            known |= {s2 for s2, st2, _ in ctx.compare_entry(kk) if st2 == run.EQUAL}
                    for slot, st, det in res:
                        if st != run.EQUAL and slot not in known:
                            out.append(('ALARM' if st == run.DIFF else 'undecided', e.name, slot, det))
            if rules:
                for p, fns in run.load_rules().items():
                    for f in fns:
                        for o in f(ctx) or ():
                            if o.status not in ('ok', 'known'):
                                out.append(('ALARM' if o.status == 'violation' else 'undecided', p, o.rule + ' ' + o.construct, o.detail))
        except Exception as x:
            import traceback
            out.append(('error', '', '', traceback.format_exc()[-400:]))
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-t', default='')
    ap.add_argument('-f', default='')
    ap.add_argument('-n', type=int, default=0)
    ap.add_argument('-p', type=int, default=0, help='extracted blocks per function')
    ap.add_argument('-c', type=int, default=0, help='random sequences of rewrites per function')
    ap.add_argument('-l', type=int, default=4, help='rewrites per sequence')
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-r', action='store_true')
    ap.add_argument('-d', action='store_true', help='show the rewrite')
    a = ap.parse_args()
    import os
    import pickle
    from sa import run
    which = a.t.split(',') if a.t else list(LOCAL) + list(GLOBAL)
    cache = '/tmp/refactor.map'
    users = {}
    if os.path.exists(cache) and os.path.getmtime(cache) > max(os.path.getmtime(os.path.join(run.VERIF, 'spec', f)) for f in os.listdir(os.path.join(run.VERIF, 'spec')) if f.endswith('.py')):
        users = pickle.load(open(cache, 'rb'))
    else:
        ctx = run.Ctx()
        for e in ctx.entries:
            if e.known:
                continue
            ctx.funcs = set()
            try:
                ctx.compare_entry(e)
            except run.AnchorMissing:
                continue
            for q in ctx.funcs:
                users.setdefault(q, set()).add(e.name)
        pickle.dump(users, open(cache, 'wb'))
    jobs = []
    for q in sorted(users):
        rel, fn = q.split(':')
        if rel.startswith('spec') or '<' in fn or a.f not in q:
            continue
        text = open(os.path.join(run.REPO, rel)).read()
        for t, k, s in chains(text, fn, which, a.c, a.l, a.s) if a.c else variants(text, fn, which, a.p, a.s):
            jobs.append((rel, fn, t, k, s, users[q], a.r))
    total = len(jobs)
    if a.n and len(jobs) > a.n:
        jobs = random.Random(a.s).sample(jobs, a.n)
    jobs.sort(key=lambda j: -len(j[5]))
    cnt = {}
    with ProcessPoolExecutor(8, max_tasks_per_child=30) as ex:
        for j, r in zip(jobs, ex.map(work, jobs, chunksize=2)):
            st = 'ALARM' if any(x[0] == 'ALARM' for x in r) else (r[0][0] if r else 'quiet')
            for tt in set(j[2].split('+')):
                cnt.setdefault(tt, {}).setdefault(st, 0)
                cnt[tt][st] += 1
            if r:
                print('%s %s:%s %s#%d  %s' % (st, j[0].split('/')[-1], j[1], j[2], j[3], ' | '.join(' '.join(x[1:])[:260] for x in r[:2])), flush=True)
                if a.d:
                    import difflib
                    o = ast.unparse(ast.parse(open(os.path.join(run.REPO, j[0])).read())).splitlines()
                    print('\n'.join(x for x in difflib.unified_diff(o, j[4].splitlines(), lineterm='', n=1))[:3000])
    print(total, 'variants;', len(jobs), 'run')
    for t in sorted(cnt):
        print(t, cnt[t])


if __name__ == '__main__':
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=main)
    th.start()
    th.join()
