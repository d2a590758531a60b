"""Sensitivity of a check: the rules are re-applied to mutated copies of the analysed source (held in memory).

For every analysed function, small syntactic mutants are generated and decided by the same static
rules; the result (detected / undecided / not distinguished) goes into the thorough evidence.
It changes nothing in /repo and nothing is executed.
"""
import ast
import copy
import random
from concurrent.futures import ProcessPoolExecutor

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Mod: ast.Mult, ast.Pow: ast.Mult}
SKIPCALL = {'print', 'warn', 'debug', 'info'}


def func_node(tree, qual):
    parts = qual.split('.')
    body = tree.body
    for i, p in enumerate(parts):
        for n in body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == p:
                body = n.body
                found = n
                break
        else:
            return None
    return found


def sites(fn):
    """(kind, path index) of mutation sites, in walk order"""
    out = []
    nodes = list(ast.walk(fn))
    attrs = sorted({n.attr for n in nodes if isinstance(n, ast.Attribute)})
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((i, 'cmp'))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((i, 'bin'))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((i, 'aug'))
        elif isinstance(n, ast.BoolOp):
            out.append((i, 'bool'))
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
            out.append((i, 'neg'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((i, 'num'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((i, 'flip'))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and len(attrs) > 3:
            out.append((i, 'attr'))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((i, 'args'))
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete, ast.Break,
                                      ast.Continue, ast.Return)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                                getattr(s.value.func, 'id', getattr(s.value.func, 'attr', '')) in SKIPCALL:
                            continue
                        out.append((i, 'del:%s:%d' % (f, j)))
    return out


def apply(fn, site):
    i, kind = site
    n = list(ast.walk(fn))[i]
    if kind == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind in ('bin', 'aug'):
        n.op = BIN[type(n.op)]()
    elif kind == 'bool':
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == 'num':
        n.value = n.value + 1
    elif kind == 'flip':
        n.value = not n.value
    elif kind == 'attr':
        attrs = sorted({x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute)})
        same = [a for a in attrs if a != n.attr and a[:2] == n.attr[:2]] or [a for a in attrs if a != n.attr]
        n.attr = same[len(n.attr) % len(same)]
    elif kind == 'args':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind.startswith('del:'):
        _, f, j = kind.split(':')
        getattr(n, f)[int(j)] = ast.Pass()
    return getattr(n, 'lineno', 0)


def mutants(text, qual):
    tree = ast.parse(text)
    fn = func_node(tree, qual)
    if fn is None:
        return
    base = ast.unparse(fn)
    for s in sites(fn):
        t = copy.deepcopy(tree)
        f = func_node(t, qual)
        try:
            line = apply(f, s)
            if ast.unparse(f) == base:
                continue
            yield s, line, ast.unparse(t)
        except Exception:
            continue


def one(job):
    import resource
    import sys
    import threading
    prop, rel, qual, site, line, text = job
    out = ['error']

    def work():
        from . import run, terms
        try:
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
            ctx, obls = run.run_property(prop, ctx=run.Ctx(overrides={rel: text}))
            st = {o.status for o in obls}
            out[0] = 'detected' if 'violation' in st else ('undecided' if 'undecided' in st else 'same')
        except run.AnchorMissing:
            out[0] = 'anchor'
        except Exception as x:
            out[0] = 'error %r' % x
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return (rel, qual, site, line, out[0])


def jobs_for(prop, ctx, limit=None, seed=1):
    import os
    from .run import REPO
    jobs = []
    for q in sorted(ctx.funcs):
        rel, fn = q.split(':')
        if rel.startswith('spec/') or '<' in fn:
            continue
        p = os.path.join(REPO, rel)
        if not os.path.exists(p):
            continue
        text = open(p).read()
        for s, line, t in mutants(text, fn):
            jobs.append((prop, rel, fn, s, line, t))
    if limit and len(jobs) > limit:
        jobs = random.Random(seed).sample(jobs, limit)
    return jobs


def sweep(jobs, workers=8):
    with ProcessPoolExecutor(workers, max_tasks_per_child=40) as ex:
        return list(ex.map(one, jobs, chunksize=4))


def run(prop, ctx, limit=240):
    import os
    jobs = jobs_for(prop, ctx, limit, int(os.environ.get('VERIF_SEED', '1')))
    res = sweep(jobs)
    count = {}
    for r in res:
        k = r[4].split()[0]
        count[k] = count.get(k, 0) + 1
    return {'sensitivity': {'mutants': len(res), 'outcome': count,
                            'note': 'syntactic mutants of the analysed functions, decided by the same rules; mutants '
                                    'may be equivalent',
                            'not_distinguished': ['%s:%s line %d %s' % (r[0], r[1], r[3], r[2][1]) for r in res
                                                  if r[4] == 'same'][:40]}}
