"""Gated-SSA value-numbering interpreter (abstract interpretation over terms).

A function body is analysed once: both branches of every conditional are
analysed and joined with a gate, loops become recurrences (mu terms) or closed
forms, repository helpers are inlined, foreign calls become pure applications or
ordered effects on a channel.  No statement of the analysed program is run.
"""
import ast
import contextlib
import copy
import re
from .terms import *
from .terms import _slice, _add
from .source import Func, Class, walk_scope
from .vocab import *


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('env', 'heap', 'cells', 'chans', 'pc', 'vers')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.cells = {}
        self.chans = {}
        self.vers = {}
        self.pc = TRUE

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.cells = dict(self.cells)
        s.chans = dict(self.chans)
        s.vers = dict(self.vers)
        s.pc = self.pc
        return s


EPS = mk('eps')


class Frame:
    def __init__(self, func, module, cls, selfv):
        self.func = func
        self.module = module
        self.cls = cls
        self.selfv = selfv
        self.nonlocals = set()
        self.globals = set()


class FnVal:
    """python-side callable value referenced from a term"""
    table = []

    @classmethod
    def term(cls, *payload):
        for i, p in enumerate(cls.table):
            if p[0] == payload[0] and all(x is y or (isinstance(x, str) and x == y) for x, y in zip(p[1:], payload[1:])) and len(p) == len(payload):
                return mk('fn', i)
        cls.table.append(payload)
        return mk('fn', len(cls.table) - 1)


MAXDEPTH = 14


LOOPS = {}      # value of a location after a loop -> (loop record, location)


class LoopRec:
    """one analysed loop: per carried location its placeholder, initial value and value after one iteration"""
    count = 0

    def __init__(self, tv, vars):
        self.tv, self.vars = tv, dict(vars)
        self.alias = {}      # local container -> attribute that holds it
        self.out = {}
        LoopRec.count += 1
        self.seq = LoopRec.count

    def add(self, k, v, body=None):
        if v.op != 'mu':
            return
        self.out[k] = v
        if body is not None:
            self.vars[k] = (None, UNDEF, body)

    def finish(self, dom, stop):
        self.dom, self.stop = dom, stop
        for k, v in self.out.items():
            LOOPS.setdefault(v, (self, k))


MEMO = {'lru_cache', 'cache', 'cached_property'}
PLAIN_DECOR = {'property', 'abstractproperty', 'staticmethod', 'classmethod', 'abstractmethod', 'contextmanager', 'setter',
               'getter', 'deleter', 'wraps', 'spec', 'override', 'final', 'overload', 'no_type_check', 'jit', 'njit',
               'deprecated', 'coroutine'}


def stateful(ts, params):
    """does a value depend on attributes that may change during the life of the object?"""
    for x in subterms_of(ts):
        if x.op == 'attr':
            b = x
            fixed = False
            while b.op == 'attr':
                if b.args[1] in ('cnf', 'chd', 'cst') or b.args[1] in params:
                    fixed = True
                b = b.args[0]
            if not fixed and (b.op != 'sym' or str(b.args[0]) not in ('cst', 'chd', 'cnf')):
                return True
        elif x.op in ('ret', 'ph', 'cell'):
            return True
    return False


class Interp:
    on_read = None         # observer of subscript reads (typestate rules)
    prints = False

    def __init__(self, repo, pure=(), opaque=(), types=None, assume_types=None, inline_new=(), unroll=64,
                 params_as_attr=True, no_inline_prefix=(), props=None, noinline_methods=()):
        self.repo = repo
        self.pure = set(pure)            # repository functions treated as pure uninterpreted functions
        self.opaque = set(opaque)        # repository functions treated as effects
        self.types = dict(types or {})   # term -> Class, for method / property resolution
        self.inline_new = set(inline_new)
        self.st = None
        self.exits = []
        self.context = []
        self.frames = []
        self.super_ctx = None
        self.trystack = []
        self.ncell = 0
        self.ntv = 0
        self.nfuncs = set()
        self.sites = 0
        self.notes = []
        self.unroll = unroll
        self.steps = 0
        self.maxsteps = 200000
        self.loopdepth = 0
        self.looprecs = []

    # ------------------------------------------------------------ entry
    def run(self, func, args=None, selfcls=None, selfv=None, kwargs=None, pre=None):
        """analyse func; returns Summary"""
        st = State()
        st.pc = TRUE
        self.st = st
        self.exits = []
        self.frames = []
        self.trystack = [None] if self.faults else []
        if pre:
            pre(self)
        a = func.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = []
        bound = dict(args or {})
        i = 0
        if func.cls is not None and not func.is_static:
            if selfv is None:
                selfv = sym('cls') if func.is_classmethod else sym('self')
            if selfcls is not None or func.cls is not None:
                self.types.setdefault(selfv, selfcls or func.cls)
            vals.append(selfv)
            params = params[1:]
        for k, p in enumerate(params):
            if p in bound:
                vals.append(bound[p])
            elif k in bound:
                vals.append(bound[k])
            else:
                v = sym('arg%d' % k)
                vals.append(v)
        kw = {}
        for k, p in enumerate(a.kwonlyargs):
            kw[p.arg] = bound.get(p.arg, sym('kw_' + p.arg))
        if a.vararg:
            vals_var = sym('varargs')
        ret = self.inline(func, vals, kw, selfv, symbolic_var=True)
        return self.summary(ret)

    FNCACHE = {}

    def fn_term(self, x):
        """canonical form of a callable value: its own value graph"""
        k = (x, tuple(sorted(self.pure)), tuple(sorted(self.opaque)))
        r = self.FNCACHE.get(k)
        if r is not None:
            return r
        p = FnVal.table[x.args[0]]
        self.FNCACHE[k] = x
        r = x
        if p[0] in ('func', 'localfunc'):
            sub = Interp(self.repo, pure=self.pure, opaque=self.opaque, types=self.types, inline_new=self.inline_new,
                         unroll=self.unroll)
            f = p[1]
            try:
                st = State()
                st.pc = TRUE
                sub.st = st
                a = f.node.args
                n = len(a.posonlyargs + a.args)
                ret = sub.inline(f, [sym('param%d' % i) for i in range(n)], {}, None, symbolic_var=True)
                s = Summary(sub, ret)
                sets = sorted(s.written(), key=lambda k: (k[1], show(k[0], 9)))
                if s.all_cells():
                    raise Unsupported('a function that changes containers')
                r = mk('lamf', num(n), s.outcome(), *(
                    [mk('kw', c, s.chan(c)) for c in sorted(s.all_chans())] +
                    [mk('kw', 'set:' + k[1], mk('tuple', k[0], s.attr(k[0], k[1], True))) for k in sets]))
            except Unsupported:
                r = x
        elif p[0] == 'class':
            r = mk('class', p[1].name)
        elif p[0] in ('ext', 'builtin'):
            r = sym('%s' % str(p[1]).split('.')[-1])
        elif p[0] == 'method':
            r = mk('bound', p[1].name, p[2])
        elif p[0] == 'extmethod':
            r = mk('bound', p[1], p[2])
        self.FNCACHE[k] = r
        return r

    def summary(self, ret):
        return Summary(self, ret)

    # ------------------------------------------------------------ state helpers
    def fresh_cell(self, content):
        self.ncell += 1
        c = mk('cell', self.ncell)
        self.st.cells[c] = content
        return c

    def tv(self):
        self.ntv += 1
        return mk('tv', self.ntv)

    def deref(self, v, st=None, deep=True, memo=None):
        st = st or self.st
        if memo is None:
            memo = {}
        return self._deref(v, st, memo, 0)

    def _deref(self, v, st, memo, depth):
        if not isinstance(v, T):
            return v
        r = memo.get(v)
        if r is not None:
            return r
        if depth > 60:
            return v
        if v in st.cells:
            memo[v] = v
            c = st.cells[v]
            r = self._deref(c, st, memo, depth + 1) if c is not v else v
        elif v.op == 'ite':
            r = ite(atom(v.args[0]), self._deref(v.args[1], st, memo, depth + 1), self._deref(v.args[2], st, memo, depth + 1))
        elif v.op in ('list', 'tuple', 'dict', 'append', 'concat', 'store', 'set', 'drop', 'update', 'poly', 'RET') and v.args:
            if v.op == 'poly':
                if any(c in st.cells for c in children(v)):
                    r = subst(v, {c: self._deref(c, st, memo, depth + 1) for c in children(v) if c in st.cells})
                else:
                    r = v
            else:
                new = [self._deref(a, st, memo, depth + 1) for a in v.args]
                r = v if all(x is y for x, y in zip(new, v.args)) else app(v.op, *new)
        else:
            r = v
        memo[v] = r
        return r

    def content(self, v):
        """content of container value, one level"""
        st = self.st
        if v in st.cells:
            return st.cells[v]
        if v.op == 'ite':
            return ite(atom(v.args[0]), self.content(v.args[1]), self.content(v.args[2]))
        return v

    def set_content(self, v, new, target=None):
        """new: function old_content -> new_content"""
        st = self.st
        if v.op == 'ite':
            # conditional update of both alternatives
            c = atom(v.args[0])
            for x, g in ((v.args[1], c), (v.args[2], bnot(c))):
                def upd(old, g=g):
                    return ite(g, new(old), old)
                if not self.set_content(x, upd, None):
                    return False
            return True
        if v.op == 'cell' or v in st.cells:
            st.cells[v] = new(st.cells[v])
            return True
        if v.op in REFLIKE:
            st.cells[v] = new(v)
            return True
        if target is not None:
            self.assign_target(target, new(v))
            return True
        return False

    # ------------------------------------------------------------ effects
    def event(self, chan, name, args, raises=True, result=True, versioned=True):
        st = self.st
        ev = mk('ev', name, *[self.deref(a) for a in args])
        self.sites += 1
        tr = st.chans.get(chan, EPS)
        if versioned:
            res = app('ret', ev, tr)
        else:
            res = mk('ret', ev)
        st.chans[chan] = app('seq', tr, ev)
        if name == 'close' and len(ev.args) == 2 and ev.args[1].op == 'ret' and ev.args[1].args[0].args[0] == 'open':
            raises = False      # as at the end of a with statement
        if raises:
            self.may_raise(mk('exof', ev, tr if tr.op != 'ite' else mk('trk', tr)))
        return res

    def query(self, chan, name, args):
        tr = self.st.chans.get(chan, EPS)
        return app('ret', mk('ev', name, *[self.deref(a) for a in args]), tr)

    def may_raise(self, exval, classes=None):
        """split the state on `operation raises`, only inside a try whose handlers could see it"""
        if not self.trystack:
            return
        if classes is not None:
            if not any(t is None or any(issub(c, h) or issub(h, c) for c in classes for h in t) for t in self.trystack):
                return
        cond = atom(mk('raises', exval))
        self.exits.append(['raise', band(self.st.pc, cond), self.st.copy(), exval])
        self.st.pc = band(self.st.pc, bnot(cond))

    # ------------------------------------------------------------ joins
    def merge_states(self, pairs):
        """pairs: list of (guard, state), guards pairwise disjoint; returns merged state (pc not set)"""
        if len(pairs) == 1:
            return pairs[0][1].copy()
        g, s = pairs[0]
        rest = self.merge_states(pairs[1:])
        return self.merge2(g, s, rest)

    def merge2(self, c, a, b):
        r = State()
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            r.env[k] = x if x is y else self.join(c, x, y)
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x = a.heap.get(k)
            y = b.heap.get(k)
            if x is None:
                x = self.initial_attr(k[0], k[1], a)
            if y is None:
                y = self.initial_attr(k[0], k[1], b)
            r.heap[k] = x if x is y else self.join(c, x, y)
        for k in list(a.cells) + [k for k in b.cells if k not in a.cells]:
            x, y = a.cells.get(k), b.cells.get(k)
            if x is None:
                x = y if k.op == 'cell' else k
            if y is None:
                y = x if k.op == 'cell' else k
            r.cells[k] = x if x is y else self.join(c, x, y)
        for k in list(a.chans) + [k for k in b.chans if k not in a.chans]:
            x, y = a.chans.get(k, EPS), b.chans.get(k, EPS)
            r.chans[k] = x if x is y else ite(c, x, y)
        for k in list(a.vers) + [k for k in b.vers if k not in a.vers]:
            x, y = a.vers.get(k, EPS), b.vers.get(k, EPS)
            r.vers[k] = x if x is y else ite(c, x, y)
        r.pc = TRUE
        return r

    def join(self, c, x, y):
        if not isinstance(x, T) or not isinstance(y, T):
            raise Unsupported('join of non-values')
        return ite(c, x, y)

    def loc_get_initial(self, k):
        return mk('attr', k[0], k[1])

    def initial_attr(self, base, name, st):
        vs = []
        v = st.vers.get(base)
        if v is not None and v is not EPS:
            vs.append(v)
        for k, v in st.vers.items():
            if type(k) is tuple and k[0] is base and v is not EPS and name in self.WSETS[k[1]]:
                vs.append(v)
        if vs:
            vs.sort(key=lambda t: t.id)
            return mk('attr', base, name, *vs)
        return mk('attr', base, name)

    @contextlib.contextmanager
    def under(self, g):
        """the condition under which the code executed inside runs, relative to the surrounding code"""
        self.context.append(g)
        try:
            yield
        finally:
            self.context.pop()

    def whole_path(self, pc):
        """the path condition from the entry of the analysed function"""
        for g in reversed(self.context):
            pc = band(g, pc)
        return pc

    def branch(self, c, fthen, felse):
        """run two alternatives from the current state and join; returns joined value (or None)"""
        st0 = self.st
        outer = st0.pc
        c = constrain(c, outer)
        if c is TRUE:
            return fthen()
        if c is FALSE:
            return felse()
        n0 = len(self.exits)
        oc = band(outer, c)
        onc = band(outer, bnot(c))
        s1 = st0.copy()
        s1.pc = TRUE
        self.st = s1
        with self.under(oc):
            v1 = fthen()
        s1 = self.st
        n1 = len(self.exits)
        s2 = st0.copy()
        s2.pc = TRUE
        self.st = s2
        with self.under(onc):
            v2 = felse()
        s2 = self.st
        for e in self.exits[n0:n1]:
            e[1] = band(oc, e[1])
        for e in self.exits[n1:]:
            e[1] = band(onc, e[1])
        g1, g2 = s1.pc, s2.pc
        if g1 is FALSE:
            m = s2
            v = v2
        elif g2 is FALSE:
            m = s1
            v = v1
        else:
            m = self.merge2(c, s1, s2)
            v = None
            if v1 is not None and v2 is not None:
                v = v1 if v1 is v2 else self.join(c, v1, v2)
        m.pc = bor(band(oc, g1), band(onc, g2))
        self.st = m
        if v is None and (v1 is not None or v2 is not None):
            v = v1 if g2 is FALSE else v2
        return v

    # ------------------------------------------------------------ calls
    def bind(self, func, args, kwargs, skip_self=False):
        """map call arguments to parameter names; returns dict or None"""
        a = func.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        if skip_self:
            names = names[1:]
        env = {}
        nst = sum(1 for x in args if isinstance(x, tuple))
        if nst and not (a.vararg and nst == 1 and isinstance(args[-1], tuple) and len(args) > len(names)):
            return None
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        kwextra = {}
        kwn = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwn:
                env[k] = v
            else:
                kwextra[k] = v
        if a.vararg:
            if nst:
                env[a.vararg.arg] = app('concat', mk('tuple', *extra[:-1]), extra[-1][1]) if extra[:-1] else extra[-1][1]
            else:
                env[a.vararg.arg] = mk('tuple', *extra)
        elif extra:
            return None
        if a.kwarg and set(kwextra) == {'**'}:
            # forwarded mapping (assumed not to name the other parameters)
            env[a.kwarg.arg] = kwextra['**']
        elif a.kwarg:
            if '**' in kwextra:
                return None
            items = []
            for k, v in sorted(kwextra.items()):
                items += [string(k), v]
            env[a.kwarg.arg] = mk('dict', *items)
        elif kwextra:
            return None
        return env, names, kwn

    def inline(self, func, args, kwargs, selfv=None, symbolic_var=False):
        if len(self.frames) > MAXDEPTH:
            raise Unsupported('inlining too deep at %s' % func.qual)
        if func.is_generator and self.frames:
            raise Unsupported('generator %s' % func.qual)
        if sum(1 for f in self.frames if f.func is func) >= 1:
            raise Unsupported('recursion in %s' % func.qual)
        self.nfuncs.add(func.qual)
        a = func.node.args
        b = self.bind(func, args, kwargs)
        if b is None:
            raise Unsupported('cannot bind arguments of %s' % func.qual)
        env, names, kwn = b
        frame = Frame(func, func.module, func.cls, selfv)
        saved_env = self.st.env
        if symbolic_var:
            if a.vararg:
                env[a.vararg.arg] = sym('varargs')
            if a.kwarg:
                env[a.kwarg.arg] = sym('kwargs')
        # defaults
        defs = a.defaults
        pos = [p.arg for p in a.posonlyargs + a.args]
        self.frames.append(frame)
        try:
            self.st.env = dict(func.closure or {})
            for p, d in zip(pos[len(pos) - len(defs):], defs):
                if p not in env:
                    env[p] = self.default_value(d)
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg not in env and d is not None:
                    env[p.arg] = self.default_value(d)
            for p in pos + kwn:
                if p not in env:
                    if symbolic_var:
                        env[p] = sym('arg_' + p)
                    else:
                        raise Unsupported('missing argument %s of %s' % (p, func.qual))
            base = dict(func.closure or {})
            base.update(env)
            self.st.env = base
            outer_pc = self.st.pc
            self.st.pc = TRUE
            saved_exits = self.exits
            self.exits = []
            if isinstance(func.node, ast.Lambda):
                v = self.eval(func.node.body)
                self.exits.append(['return', self.st.pc, self.st, v])
            else:
                with self.under(outer_pc):
                    self.exec_block(tail_breaks(func.node))
                if self.st.pc is not FALSE:
                    self.exits.append(['return', self.st.pc, self.st, NONE])
            exits = self.exits
            self.exits = saved_exits
        finally:
            self.frames.pop()
        rets = [e for e in exits if e[0] == 'return' and e[1] is not FALSE]
        raises = [e for e in exits if e[0] == 'raise' and e[1] is not FALSE]
        for e in raises:
            e[1] = band(outer_pc, e[1])
            e[2].env = dict(saved_env)
            self.exits.append(e)
        if not rets:
            s = exits[-1][2].copy() if exits else self.st
            s.env = dict(saved_env)
            s.pc = FALSE
            self.st = s
            return NONE
        pairs = [(e[1], e[2]) for e in rets]
        envs = [p[1].env for p in pairs]
        for e in rets:
            e[2].env = {}
        m = self.merge_states(pairs)
        v = rets[-1][3]
        for e in reversed(rets[:-1]):
            v = self.join(e[1], e[3], v) if e[3] is not v else v
        g = FALSE
        for e in rets:
            g = bor(g, e[1])
        m.pc = band(outer_pc, g)
        m.env = saved_env
        self.st = m
        return self.decorated(func, v)

    def decorated(self, func, v):
        """result of a function whose decorator changes what a call delivers"""
        for d in func.decor:
            n = d.split('(')[0].split('.')[-1]
            if n in MEMO:
                if stateful([self.deref(v)], self.repo.step_params(func.cls) if func.cls is not None else ()):
                    v = mk('memo', func.qual, v)
            elif n not in PLAIN_DECOR:
                v = app('x:decorated', v)
        return v

    def default_value(self, d):
        return self.eval(d)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st.pc is FALSE:
                return
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('analysis budget exceeded')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%d' % (type(s).__name__, self.frames[-1].module.relpath, s.lineno))
        m(s)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            dotted = a.name if a.asname else a.name.split('.')[0]
            self.st.env[nm] = FnVal.term('mod', dotted)

    def x_ImportFrom(self, s):
        mod = self.frames[-1].module
        base = mod._abs(s)
        for a in s.names:
            nm = a.asname or a.name
            if base in self.repo.modules:
                r = self.repo.resolve(self.repo.modules[base], a.name)
                if r is not None:
                    self.st.env[nm] = self.of_resolved(r)
                    continue
                if base + '.' + a.name in self.repo.modules:
                    self.st.env[nm] = FnVal.term('mod', base + '.' + a.name)
                    continue
            self.st.env[nm] = self.of_resolved(('ext', base + '.' + a.name))

    def x_Global(self, s):
        self.frames[-1].globals.update(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)
        f = self.frames[-1].func
        if f is None or any(isinstance(x, ast.Name) and x.id in s.names and not isinstance(x.ctx, ast.Load)
                            for x in ast.walk(f.node)):
            raise Unsupported('nonlocal')

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Assert(self, s):
        c = self.cond(s.test)
        self.branch(c, lambda: None, lambda: self.do_raise(mk('exc', 'AssertionError')))

    def x_FunctionDef(self, s):
        f = Func(s, self.frames[-1].module, None, closure=None)
        f.closure = self.st.env
        self.st.env[s.name] = FnVal.term('localfunc', f)

    def x_ClassDef(self, s):
        c = Class(s, self.frames[-1].module)
        self.st.env[s.name] = FnVal.term('class', c)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.st.pc is FALSE:
            return
        self.exits.append(['return', self.st.pc, self.st.copy(), v])
        self.st.pc = FALSE

    def x_Raise(self, s):
        if s.exc is None:
            v = self.st.env.get('$exc')
            if v is None:
                v = mk('exc', '?')
        else:
            v = self.eval(s.exc)
        self.do_raise(v)

    def do_raise(self, v):
        if self.st.pc is FALSE:
            return
        self.exits.append(['raise', self.st.pc, self.st.copy(), v])
        self.st.pc = FALSE

    def x_Break(self, s):
        self.exits.append(['break', self.st.pc, self.st.copy(), NONE])
        self.st.pc = FALSE

    def x_Continue(self, s):
        self.exits.append(['continue', self.st.pc, self.st.copy(), NONE])
        self.st.pc = FALSE

    def x_If(self, s):
        c = self.cond(s.test)
        if self.st.pc is FALSE:
            return
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_Assign(self, s):
        v = self.eval(s.value)
        if self.st.pc is FALSE:
            return
        for t in s.targets:
            self.assign_target(t, v)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and self.one_shot(s.value):
            # a generator can be gone through once: a later reading finds it empty
            self.st.env['#once:' + s.targets[0].id] = ZERO

    def one_shot(self, e):
        if isinstance(e, ast.GeneratorExp):
            return True
        if not isinstance(e, ast.Call):
            return False
        f = e.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if isinstance(f, ast.Name) and nm in ('map', 'filter', 'zip', 'reversed', 'enumerate') and nm not in self.st.env:
            return True
        return nm in self.repo.generators()

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign_target(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(id=t.id, ctx=ast.Load()))
            rhs = self.eval(s.value)
            if (old.op == 'cell' or old in self.st.cells) :
                new = self.binop(s.op, self.content(old), rhs)
                self.set_content(old, lambda o: new)
            else:
                new = self.binop(s.op, old, rhs)
                if old.op == 'attr' and old.args[1] in self.repo.indexed_attrs() and new.op != 'cat':
                    # an array (or list) held by an object is changed in place
                    self.set_content(old, lambda o: new)
                else:
                    self.assign_target(t, new)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.getattr(base, t.attr)
            rhs = self.eval(s.value)
            if old.op == 'cell' or old in self.st.cells:
                new = self.binop(s.op, self.content(old), rhs)
                self.set_content(old, lambda o: new)
            else:
                self.setattr(base, t.attr, self.binop(s.op, old, rhs))
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            ix = self.index(t.slice)
            old = self.select(self.content(base), ix)
            rhs = self.deref(self.eval(s.value))
            new = self.binop(s.op, old, rhs)
            if not self.set_content(base, lambda o: app('store', o, ix, self.deref(new)), target=t.value):
                raise Unsupported('augmented store')
        else:
            raise Unsupported('augmented target')

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                ix = self.index(t.slice)
                cls = self.types.get(base)
                if cls is not None and self.repo.find_method(cls, '__delitem__'):
                    self.inline(self.repo.find_method(cls, '__delitem__'), [base, ix.args[0] if len(ix.args) == 1 else ix], {}, base)
                    continue
                c = self.content(base)
                self.may_raise(mk('exof', mk('ev', 'delitem', self.deref(c), ix)), ('KeyError', 'IndexError'))
                if not self.set_content(base, lambda o: app('drop', o, ix), target=t.value):
                    raise Unsupported('del target')
            elif isinstance(t, ast.Attribute):
                self.setattr(self.eval(t.value), t.attr, UNDEF)
            else:
                raise Unsupported('del')

    def x_With(self, s):
        self.do_with(s.items, s.body)

    def do_with(self, items, body):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        ctx = it.context_expr
        # contexts without an observable effect on results
        if isinstance(ctx, ast.Call):
            fn = self.extname(ctx.func)
            if fn in NEUTRAL_CONTEXTS:
                if it.optional_vars is not None:
                    self.assign_target(it.optional_vars, sym('ctx'))
                self.do_with(items[1:], body)
                return
            if fn == 'contextlib.suppress':
                h = ast.ExceptHandler(type=ast.Tuple(elts=list(ctx.args), ctx=ast.Load()), name=None,
                                      body=[ast.Pass(lineno=ctx.lineno, col_offset=0)])
                self.do_try(lambda: self.do_with(items[1:], body), [h], [], [])
                return
            if fn == 'contextlib.closing':
                v = self.eval(ctx.args[0])
                if it.optional_vars is not None:
                    self.assign_target(it.optional_vars, v)
                self.do_try(lambda: self.do_with(items[1:], body), [], [], None,
                            final=lambda: self.call_method(v, 'close', [], {}))
                return
        v = self.eval(ctx)
        if self.st.pc is FALSE:
            return
        cls = self.types.get(v)
        inner = v
        if cls is not None and self.repo.find_method(cls, '__enter__'):
            inner = self.inline(self.repo.find_method(cls, '__enter__'), [v], {}, v)
            exitm = self.repo.find_method(cls, '__exit__')
            fin = (lambda: self.inline(exitm, [v, sym('et'), sym('ev'), sym('tb')], {}, v))
        else:
            d = self.deref(v)
            ch = self.chan_of(d, 'close')

            def fin():
                if all(x.op == 'ret' and x.args[0].args[0] in ('open', 'netCDF4.Dataset') for x in leaf_values(d)):
                    self.event(ch, 'close', [d], raises=False)
                else:
                    self.event(ch, 'exit', [d], raises=False)
        if it.optional_vars is not None:
            self.assign_target(it.optional_vars, inner)
        self.do_try(lambda: self.do_with(items[1:], body), [], [], None, final=fin)

    def x_Try(self, s):
        self.do_try(lambda: self.exec_block(s.body), s.handlers, s.orelse, s.finalbody)

    def handler_classes(self, h):
        if h.type is None:
            return ['BaseException']
        t = h.type
        elts = t.elts if isinstance(t, ast.Tuple) else [t]
        out = []
        for e in elts:
            v = self.eval(e)
            if v.op == 'tuple':
                out += [self.excname(x) for x in v.args]
            else:
                out.append(self.excname(v))
        return out

    def excname(self, v):
        if v.op == 'fn':
            p = FnVal.table[v.args[0]]
            if p[0] == 'class':
                return p[1].name
            if p[0] in ('ext', 'builtin'):
                return p[1].split('.')[-1]
        if v.op == 'exc':
            return v.args[0]
        return '?'

    def exc_matches(self, val, cname):
        """condition that exception value is an instance of class cname"""
        if cname in ('BaseException', 'Exception') and val.op != 'ite':
            return TRUE
        if val.op == 'exc':
            return TRUE if self.subclass(val.args[0], cname) else FALSE
        if val.op == 'ite':
            return ite(atom(val.args[0]), self.exc_matches(val.args[1], cname), self.exc_matches(val.args[2], cname))
        if cname in ('IOError', 'EnvironmentError', 'WindowsError', 'error'):
            cname = 'OSError'
        if val.op == 'exof':
            ev = val.args[0]
            nm = ev.args[0]
            if nm in EV_EXC and cname in ('OSError', 'KeyError', 'IndexError', 'ValueError', 'TypeError', 'StopIteration',
                                          'AttributeError', 'json.JSONDecodeError', 'JSONDecodeError'):
                poss = EV_EXC[nm]
                if not any(issub(p, cname) or issub(cname, p) for p in poss):
                    return FALSE
                if all(issub(p, cname) for p in poss):
                    return TRUE
        return atom(mk('isexc', val, cname))

    def subclass(self, a, b):
        if issub(a, b):
            return True
        c = self.repo.class_by_name(a)
        if c is not None:
            for m in self.repo.mro(c):
                if m.name == b:
                    return True
            for e in self.repo.ext_bases(c):
                if issub(e.split('.')[-1], b):
                    return True
        return False

    def do_try(self, body, handlers, orelse, finalbody, final=None):
        outer = self.st.pc
        saved = self.exits
        self.exits = []
        hcl = [self.handler_classes(h) for h in handlers]
        self.st.pc = TRUE
        hasfin = bool(finalbody) or final is not None
        if hasfin:
            self.trystack.append(None)
        if handlers:
            self.trystack.append(tuple(c for cs in hcl for c in cs))
        env0 = dict(self.st.env)
        body()
        if handlers:
            self.trystack.pop()
        exits = self.exits
        self.exits = []
        out = []
        falls = []
        if self.st.pc is not FALSE:
            if orelse:
                p = self.st.pc
                self.st.pc = TRUE
                self.exec_block(orelse)
                for e in self.exits:
                    e[1] = band(p, e[1])
                    out.append(e)
                self.exits = []
                self.st.pc = band(p, self.st.pc)
            if self.st.pc is not FALSE:
                falls.append((self.st.pc, self.st))
        for e in exits:
            if e[0] != 'raise' or not handlers:
                out.append(e)
                continue
            rest = e[1]
            for h, cs in zip(handlers, hcl):
                m = FALSE
                for c in cs:
                    m = bor(m, self.exc_matches(e[3], c))
                g = band(rest, m)
                rest = band(rest, bnot(m))
                if g is FALSE:
                    continue
                st = e[2].copy()
                st.pc = TRUE
                self.st = st
                old = st.env.get('$exc')
                st.env['$exc'] = e[3]
                if h.name:
                    st.env[h.name] = e[3]
                self.exits = []
                self.exec_block(h.body)
                for x in self.exits:
                    x[1] = band(g, x[1])
                    out.append(x)
                self.exits = []
                if self.st.pc is not FALSE:
                    if h.name:
                        self.st.env.pop(h.name, None)
                    self.st.env.pop('$exc', None)
                    if old is not None:
                        self.st.env['$exc'] = old
                    falls.append((band(g, self.st.pc), self.st))
            if rest is not FALSE:
                e2 = list(e)
                e2[1] = rest
                out.append(e2)
        if hasfin:
            self.trystack.pop()
            fin = final if final is not None else (lambda: self.exec_block(finalbody))
            nf = []
            if falls:
                g = FALSE
                for x in falls:
                    g = bor(g, x[0])
                m = self.merge_states(falls) if len(falls) > 1 else falls[0][1]
                m.pc = TRUE
                self.st = m
                self.exits = []
                fin()
                for x in self.exits:
                    x[1] = band(g, x[1])
                nf_exits = self.exits
                falls = [(band(g, self.st.pc), self.st)] if self.st.pc is not FALSE else []
            else:
                nf_exits = []
            newout = []
            # group non-raise exits as they are; run the final block on each
            for e in out:
                self.st = e[2].copy()
                self.st.pc = TRUE
                self.exits = []
                fin()
                for x in self.exits:
                    x[1] = band(e[1], x[1])
                    newout.append(x)
                if self.st.pc is not FALSE:
                    newout.append([e[0], band(e[1], self.st.pc), self.st, e[3]])
            out = nf_exits + newout
        self.exits = saved
        for e in out:
            e[1] = band(outer, e[1])
            if e[1] is not FALSE:
                self.exits.append(e)
        if falls:
            g = FALSE
            for x in falls:
                g = bor(g, x[0])
            m = self.merge_states(falls) if len(falls) > 1 else falls[0][1]
            m.pc = band(outer, g)
            self.st = m
        else:
            s = self.st.copy()
            s.pc = FALSE
            self.st = s

    # ------------------------------------------------------------ loops
    def x_For(self, s):
        it = self.eval(s.iter)
        self.loop_over(it, s.target, lambda: self.exec_block(s.body), s.orelse)

    def iter_domain(self, it):
        """-> (n, elem(idxterm)->value) or ('const', [values])"""
        it0 = it
        d = self.content(it)
        if d.op == 'ite':
            d2 = self.deref(it)
            return (app('len', d2), lambda i: app('select', d2, idx(i)))
        if d.op in ('list', 'tuple', 'set'):
            return ('const', list(d.args))
        if d.op == 'dict':
            return ('const', list(d.args[::2]))
        if d.op == 'range':
            lo, hi, stp = d.args
            if stp.op == 'num' and stp.args[0] in (1, -1):
                n = mul(sub(hi, lo), stp)
                if n.op == 'num' and n.args[0] <= self.unroll:
                    return ('const', [num(lo.args[0] + i * stp.args[0]) for i in range(max(0, int(n.args[0])))] if lo.op == 'num'
                            else [add(lo, mul(num(i), stp)) for i in range(max(0, int(n.args[0])))])
                return (n, lambda i: add(lo, mul(i, stp)))
            return (mk('rangelen', lo, hi, stp), lambda i: add(lo, mul(i, stp)))
        if d.op == 'enumerate':
            r = self.iter_domain(d.args[0])
            st = d.args[1]
            if r[0] == 'const':
                return ('const', [mk('tuple', add(st, num(i)), v) for i, v in enumerate(r[1])])
            n, f = r
            return (n, lambda i: mk('tuple', add(st, i), f(i)))
        if d.op == 'zip':
            rs = [self.iter_domain(x) for x in d.args]
            if all(r[0] == 'const' for r in rs):
                return ('const', [mk('tuple', *vs) for vs in zip(*[r[1] for r in rs])])
            fs = []
            ns = []
            for x, r in zip(d.args, rs):
                if r[0] == 'const':
                    lst = mk('list', *r[1])
                    fs.append(lambda i, lst=lst: app('select', lst, idx(i)))
                    ns.append(num(len(r[1])))
                else:
                    ns.append(r[0])
                    fs.append(r[1])
            return (app('min', *ns), lambda i: mk('tuple', *[f(i) for f in fs]))
        if d.op == 'items':
            m = self.content(d.args[0])
            if m.op == 'dict':
                return ('const', [mk('tuple', m.args[i], m.args[i + 1]) for i in range(0, len(m.args), 2)])
            m = self.deref(d.args[0])
            return (app('len', m), lambda i: mk('tuple', mk('key', m, i), app('select', m, idx(mk('key', m, i)))))
        if d.op == 'keys':
            m = self.content(d.args[0])
            if m.op == 'dict':
                return ('const', list(m.args[::2]))
            m = self.deref(d.args[0])
            return (app('len', m), lambda i: mk('key', m, i))
        if d.op == 'values':
            m = self.content(d.args[0])
            if m.op == 'dict':
                return ('const', list(m.args[1::2]))
            m = self.deref(d.args[0])
            return (app('len', m), lambda i: app('select', m, idx(mk('key', m, i))))
        if d.op == 'reversed':
            r = self.iter_domain(d.args[0])
            if r[0] == 'const':
                return ('const', list(reversed(r[1])))
            n, f = r
            return (n, lambda i: f(sub(sub(n, ONE), i)))
        if d.op == 'map':
            b = mk('bv', d.args[2])
            return (d.args[0], lambda i: subst(d.args[1], {b: i}))
        if d.op in ('str',):
            return ('const', [string(c) for c in d.args[0]])
        dd = self.deref(it)
        if dd.op == 'select' and len(dd.args[1].args) == 1 and dd.args[1].args[0].op == 'slice':
            sl = dd.args[1].args[0]
            if sl.args[1] is NONE and sl.args[2] is NONE and sl.args[0] is not NONE and sl.args[0].op != 'num':
                pass
        if self.is_mapping(dd):
            return (app('len', dd), lambda i: mk('key', dd, i))
        return (app('len', dd), lambda i: app('select', dd, idx(i)))

    def is_mapping(self, d):
        if d.op == 'ret' and d.args[0].args[0] == 'json_load':
            return True
        return d.op == 'attr' and d.args[1] in self.repo.dict_attrs()

    def loop_over(self, it, target, body, orelse):
        d = self.content(it)
        if d.op == 'x:itertools.count':
            # endless counting: as a counter advanced at the head of each pass
            start = d.args[0] if d.args else ZERO
            step = d.args[1] if len(d.args) > 1 else ONE
            name = '#count%d' % self.loopdepth
            self.st.env[name] = sub(start, step)

            def counted():
                self.st.env[name] = add(self.st.env[name], step)
                self.assign_target(target, self.st.env[name])
                body()
            self.general_loop(None, None, counted, ast.Constant(value=True), orelse)
            self.st.env.pop(name, None)
            return
        if d.op == 'ite' and not orelse and all(self.content(x).op in ('list', 'tuple', 'set', 'dict') and
                                                len(self.content(x).args) <= 8 for x in d.args[1:]):
            # a choice between written-out sequences: each is gone through under its condition
            self.branch(mk('ite', d.args[0], TRUE, FALSE), lambda: self.loop_over(d.args[1], target, body, orelse),
                        lambda: self.loop_over(d.args[2], target, body, orelse))
            return
        dom = self.iter_domain(it)
        if dom[0] == 'const':
            self.unrolled(dom[1], target, body, orelse)
            return
        n, elem = dom
        if n.op == 'num' and n.args[0] <= 16 and n.args[0].denominator == 1:
            self.unrolled([elem(num(i)) for i in range(max(0, int(n.args[0])))], target, body, orelse)
            return
        self.general_loop(n, lambda i: self.assign_target(target, elem(i)), body, None, orelse)

    def unrolled(self, values, target, body, orelse):
        if len(values) > 400:
            raise Unsupported('large literal loop')
        brk = []
        for v in values:
            if self.st.pc is FALSE:
                break
            outer = self.st.pc
            saved = self.exits
            self.exits = []
            self.st.pc = TRUE
            self.assign_target(target, v)
            body()
            cont = []
            for e in self.exits:
                if e[0] == 'break':
                    brk.append((band(outer, e[1]), e[2]))
                elif e[0] == 'continue':
                    cont.append((e[1], e[2]))
                else:
                    e[1] = band(outer, e[1])
                    saved.append(e)
            self.exits = saved
            if cont:
                pairs = cont + ([(self.st.pc, self.st)] if self.st.pc is not FALSE else [])
                g = FALSE
                for x in pairs:
                    g = bor(g, x[0])
                self.st = self.merge_states(pairs)
                self.st.pc = g
            self.st.pc = band(outer, self.st.pc)
        if orelse and self.st.pc is not FALSE:
            self.exec_block(orelse)
        if brk:
            pairs = list(brk)
            if self.st.pc is not FALSE:
                pairs.append((self.st.pc, self.st))
            g = FALSE
            for x in pairs:
                g = bor(g, x[0])
            self.st = self.merge_states(pairs)
            self.st.pc = g

    def x_While(self, s):
        self.general_loop(None, None, lambda: self.exec_block(s.body), s.test, s.orelse)

    # the core: one symbolic body pass per colouring round
    ROUNDS = 3

    def general_loop(self, n, bindelem, body, test, orelse):
        if orelse:
            # `else` runs when no break happened; only loops without break are supported
            pass
        self.loopdepth += 1
        try:
            self._general_loop(n, bindelem, body, test, orelse)
        finally:
            self.loopdepth -= 1

    def loops_final(self):
        return self.looprecs

    def loc_get(self, st, k):
        kind, key = k
        if kind == 'env':
            return st.env.get(key, UNDEF)
        if kind == 'heap':
            v = st.heap.get(key)
            return v if v is not None else self.initial_attr(key[0], key[1], st)
        if kind == 'cells':
            v = st.cells.get(key)
            return v if v is not None else key
        if kind == 'chans':
            return st.chans.get(key, EPS)
        if kind == 'vers':
            return st.vers.get(key, EPS)

    def loc_set(self, st, k, v):
        kind, key = k
        getattr(st, kind)[key] = v

    def diff_locs(self, a, b, tvars):
        """locations of b (after body) that differ from a"""
        out = []
        for kind in ('env', 'heap', 'cells', 'chans', 'vers'):
            da, db = getattr(a, kind), getattr(b, kind)
            for key, v in db.items():
                if da.get(key) is v:
                    continue
                if kind == 'cells' and key.op == 'cell' and key not in da:
                    continue   # allocated inside
                if kind == 'env' and key not in da and v is UNDEF:
                    continue
                k = (kind, key)
                if self.loc_get(a, k) is v:
                    continue
                out.append(k)
            for key in da:
                if key not in db and kind == 'heap':
                    # forgotten because an opaque call may have assigned it
                    k = (kind, key)
                    if self.loc_get(b, k) is not da[key]:
                        out.append(k)
        return out

    def _general_loop(self, n, bindelem, body, test, orelse):
        st0 = self.st
        outer = st0.pc
        path = self.whole_path(outer)
        base = st0.copy()
        base.pc = TRUE
        # discard knowledge that is not valid outside: simplify inits on the current path
        tv = self.tv()
        carried = []
        colours = {}
        induct = {}
        saved_exits = self.exits
        saved_ncell = self.ncell

        def init_of(k):
            v = self.loc_get(base, k)
            if k[0] in ('env', 'heap') and isinstance(v, T):
                v = self.deref(v, base) if v.op != 'cell' else v
            return gcof(v, path)

        flags = {}      # truth values the head test establishes for a flag

        def one_pass():
            """execute body once with placeholders; -> (fall_state|None, guard, exits)"""
            st = base.copy()
            for k in carried:
                if k in induct:
                    v = add(init_of(k), mul(tv, induct[k]))
                else:
                    v = mk('ph', colours[k], init_type(init_of(k)))
                self.loc_set(st, k, v)
            self.st = st
            self.exits = []
            if test is not None:
                c = self.cond(test)
                if self.st.pc is not TRUE:
                    pass
                p = self.st.pc
                nc = band(p, bnot(c))
                if nc is not FALSE:
                    x = self.st.copy()
                    self.exits.append(['end', nc, x, NONE])
                self.st.pc = band(p, c)
                if self.st.pc is not FALSE:
                    g = self.st.pc
                    n0 = len(self.exits)
                    self.st.pc = TRUE
                    for x, val in flags.items():
                        self.st.env[x] = val
                    with self.under(band(outer, g)):
                        body()
                    for e in self.exits[n0:]:
                        e[1] = band(g, e[1])
                    self.st.pc = band(g, self.st.pc)
            else:
                with self.under(outer):
                    bindelem(tv)
                    body()
            exits = self.exits
            falls = [(e[1], e[2]) for e in exits if e[0] == 'continue' and e[1] is not FALSE]
            if self.st.pc is not FALSE:
                falls.append((self.st.pc, self.st))
            others = [e for e in exits if e[0] != 'continue' and e[1] is not FALSE]
            return falls, others, st

        # 1. discover carried locations
        for _ in range(12):
            falls, others, stin = one_pass()
            new = []
            ref = base.copy()
            for k in carried:
                self.loc_set(ref, k, self.loc_get(stin, k) if False else (
                    add(init_of(k), mul(tv, induct[k])) if k in induct else mk('ph', colours[k], init_type(init_of(k)))))
            for g, s in falls + [(e[1], e[2]) for e in others]:
                for k in self.diff_locs(ref, s, None):
                    if k not in carried and k not in new:
                        new.append(k)
            if not new:
                break
            for k in new:
                carried.append(k)
                colours[k] = mk('col', 'init', init_of(k))
        else:
            raise Unsupported('loop does not stabilise')
        neg = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
        flag = test.operand if neg else test
        if isinstance(flag, ast.Name) and ('env', flag.id) in carried and init_of(('env', flag.id)) in (TRUE, FALSE):
            k = ('env', flag.id)
            ph = mk('ph', colours[k], init_type(init_of(k)))
            if all(leaf in (TRUE, FALSE, ph) for g, s in falls for leaf in leaf_values(self.loc_get(s, k))):
                flags[flag.id] = FALSE if neg else TRUE
                falls, others, stin = one_pass()
        # locations that exist only because they are re-bound in every pass before use
        # 2. induction variables
        for k in list(carried):
            if k[0] in ('env', 'heap', 'cells') and falls:
                vals = {self.loc_get(s, k) for g, s in falls}
                if len(vals) == 1:
                    v = vals.pop()
                    ph = mk('ph', colours[k], init_type(init_of(k)))
                    if isinstance(v, T) and v.op in ('poly',) and v is not ph:
                        d = sub(v, ph)
                        same = [q for q in carried if q != k and colours[q] is colours[k]]
                        if d.op == 'num' and init_of(k).op not in ('undef', 'none'):
                            ok = True
                            if same:
                                # the same colour may stand for another variable: retry with a private colour
                                save = colours[k]
                                colours[k] = mk('col', 'priv', init_of(k), '%s:%s' % (k[0], k[1] if isinstance(k[1], str) else repr(k[1])))
                                f2, o2, _ = one_pass()
                                v2 = {self.loc_get(s, k) for g, s in f2}
                                ok = len(v2) == 1 and sub(v2.pop(), mk('ph', colours[k], init_type(init_of(k)))) is d
                                colours[k] = save
                            if ok:
                                induct[k] = d
        count = n
        if test is not None and induct:
            # `while i < bound` with an induction variable: finite counted loop
            falls, others, stin = one_pass()
            ends = [e for e in others if e[0] == 'end']
            if len(ends) == 1:
                g = ends[0][1]      # exit condition
                hit = self.solve_count(g, tv)
                if hit is not None:
                    cnt = hit
                    free = not any(mentions_ph(cnt, colours[k]) for k in carried)
                    if not free:
                        # a colour of this loop may only occur inside an earlier, closed loop: look again with private colours
                        keep = dict(colours)
                        for k in carried:
                            if k not in induct:
                                colours[k] = mk('col', 'priv', init_of(k), '%s:%s' % (k[0], k[1] if isinstance(k[1], str) else repr(k[1])))
                        f2, o2, _ = one_pass()
                        e2 = [e for e in o2 if e[0] == 'end']
                        free = len(e2) == 1 and self.solve_count(e2[0][1], tv) is cnt and not any(
                            occurs(mk('ph', colours[k], init_type(init_of(k))), cnt) for k in carried if k not in induct)
                        colours.clear()
                        colours.update(keep)
                    if free:
                        count = cnt

                        # from now on the head test always succeeds inside the domain
                        old_one = one_pass

                        def within(x, g=g):
                            """x under the assumption that the loop has not ended"""
                            if {g.args[1], g.args[2]} == {TRUE, FALSE}:
                                return assume(x, g.args[0], g.args[1] is not TRUE)
                            if g.args[1] is TRUE:      # no iteration at all in that case
                                return within(assume(x, g.args[0], False), g.args[2])
                            if g.args[2] is TRUE:
                                return within(assume(x, g.args[0], True), g.args[1])
                            return ite(atom(g.args[0]), within(assume(x, g.args[0], True), g.args[1]),
                                       within(assume(x, g.args[0], False), g.args[2]))

                        def one_pass(old=old_one):
                            f, o, s_ = old()
                            f = [(within(g_), x) for g_, x in f]
                            o = [e for e in o if e[0] != 'end']
                            for e in o:
                                e[1] = within(e[1])
                            return f, o, s_
        # 3. colour refinement rounds
        for r in range(self.ROUNDS):
            falls, others, stin = one_pass()
            newcol = {}
            for k in carried:
                if k in induct:
                    continue
                b = self.body_value(k, falls, others, base, carried)
                newcol[k] = mk('col', init_of(k), b)
            colours.update(newcol)
        falls, others, stin = one_pass()
        self.exits = saved_exits
        bodies = {}
        for k in carried:
            if k not in induct:
                bodies[k] = self.body_value(k, falls, others, base, carried)
        early = [e for e in others if e[1] is not FALSE]
        if not early:
            self.own_reads(bodies, colours, init_of, tv)
        rec = LoopRec(tv, {k: (mk('ph', colours[k], init_type(init_of(k))), init_of(k), bodies[k]) for k in bodies})
        self.looprecs.append(rec)
        for hk, hv in base.heap.items():
            if hv.op == 'cell':
                rec.alias.setdefault(hv, hk)
        st = base.copy()
        if count is not None:
            dom = count
        else:
            dom = mk('inf')
        if not early:
            for k in carried:
                if k in induct:
                    v = add(init_of(k), mul(app('max', count, ZERO) if not nonneg(count) else count, induct[k])) if count is not None else unk('loop')
                else:
                    v = self.closed_form(k, init_of(k), bodies[k], dom, tv, colours, carried, bodies, init_of)
                rec.add(k, v)
                self.store_loc(st, k, v, tv, dom)
            rec.finish(dom, mk('sym', 'run'))
            st.pc = outer
            self.st = st
            if orelse:
                self.exec_block(orelse)
            return
        # early exits
        codes = []
        stop = mk('sym', 'run')
        order = {}
        for e in others:
            if e[0] in ('end', 'break'):
                code = mk('sym', 'brk')
            else:
                order[e[0]] = order.get(e[0], 0) + 1
                code = mk('sym', '%s' % e[0])
            codes.append(code)
        for e, code in reversed(list(zip(others, codes))):
            stop = ite(e[1], code, stop)
        infinite = count is None
        for k in carried:
            if k in induct:
                # value at exit: generic recurrence
                ph = mk('ph', mk('col', 'ind', init_of(k), induct[k]), init_type(init_of(k)))
                b = self.body_value(k, falls, others, base, carried)
                b = subst(b, {tv: tv})
                v = close('mu', tv, [dom, stop, init_of(k), b])
            else:
                b = bodies[k]
                ph = mk('ph', colours[k], init_type(init_of(k)))
                if b is ph:
                    v = init_of(k)
                else:
                    v = close('mu', tv, [dom, stop, init_of(k), b])
            if k not in induct:
                rec.add(k, v)
            self.store_loc(st, k, v, tv, dom)
        xv = close('mu', tv, [dom, stop, mk('sym', 'run'), stop])
        rec.add(('exit', 'code'), xv, stop)
        rec.finish(dom, stop)
        # outcome split
        kinds = []
        for e, code in zip(others, codes):
            if code not in kinds:
                kinds.append(code)
        normal = TRUE
        exits = []
        for code in kinds:
            if code.args[0] == 'brk':
                continue
            only = infinite and len(kinds) == 1 and not any(c.args[0] == 'brk' for c in kinds)
            g = TRUE if only else atom(mk('eq', xv, code))
            es = [e for e, c in zip(others, codes) if c is code]
            vals = [self.deref(e[3], e[2]) if isinstance(e[3], T) else e[3] for e in es]
            val = vals[-1]
            if any(x is not val for x in vals):
                val = UNDEF
                for e, x in reversed(list(zip(es, vals))):
                    val = ite(e[1], x, val)
            val2 = close('mu', tv, [dom, stop, UNDEF, val])
            rec.add(('exit', code.args[0]), val2, val)
            rec.finish(dom, stop)
            normal = band(normal, bnot(g))
            x = st.copy()
            x.pc = TRUE
            exits.append([code.args[0], band(outer, g), x, val2 if code.args[0] == 'return' else self.exc_of_loop(val, val2)])
        for e in exits:
            self.exits.append(e)
        st.pc = band(outer, normal)
        self.st = st
        if orelse:
            if any(c.args[0] == 'brk' for c in kinds) and test is None:
                c = atom(mk('eq', xv, mk('sym', 'run')))
                self.branch(c, lambda: self.exec_block(orelse), lambda: None)
            elif test is not None and any(e[0] == 'break' for e in others):
                raise Unsupported('while-else with break')
            else:
                self.exec_block(orelse)

    def exc_of_loop(self, val, closed):
        if val.op == 'exc':
            return val
        return closed

    def solve_count(self, g, tv):
        """g: exit condition; find count such that exit happens first at iteration `count`"""
        if g.op != 'ite':
            return None
        if not {g.args[1], g.args[2]} == {TRUE, FALSE}:
            if occurs(tv, g.args[0]):
                return None
            hi, lo = [ZERO if x is TRUE else self.solve_count(x, tv) for x in g.args[1:]]
            return ite(atom(g.args[0]), hi, lo) if hi is not None and lo is not None else None
        a = g.args[0]
        exit_when = g.args[1] is TRUE
        if a.op != 'cmp':
            return None
        L, kind, k = a.args
        d = dict(poly_of(L))
        m = ((tv, 1),)
        if m not in d:
            return None
        s = d.pop(m)
        rest = of_poly(d)
        if occurs(tv, rest):
            return None
        # L = s*tv + rest ; exit when (L kind k) == exit_when
        if kind == 'gt':
            # int: L > k
            bound = num(k)
            if exit_when and s > 0 and s == 1:
                # exit when tv > k - rest  -> first iteration tv = k-rest+1
                return add(sub(bound, rest), ONE) if is_int(L) else None
            if not exit_when and s == -1:
                # exit when -tv + rest <= k -> tv >= rest - k
                return sub(rest, bound)
        if kind == 'lt':
            bound = num(k)
            if not exit_when and s == 1:
                # exit when tv + rest >= k
                return sub(bound, rest)
            if exit_when and s == -1:
                return add(sub(rest, bound), ONE) if is_int(L) else None
        if kind == 'eq' and exit_when and abs(s) == 1:
            return sub(num(k), rest) if s == 1 else sub(rest, num(k))
        return None

    def body_value(self, k, falls, others, base, carried):
        pairs = []
        for g, s in falls:
            pairs.append((g, self.export(s, k)))
        for e in others:
            pairs.append((e[1], self.export(e[2], k)))
        v = pairs[-1][1]
        for g, x in reversed(pairs[:-1]):
            v = ite(g, x, v) if x is not v else v
        return v

    def export(self, s, k):
        """value of location k at the end of an iteration, with cells allocated in the loop resolved"""
        v = self.loc_get(s, k)
        if v.op == 'cell' and k[0] != 'cells':
            # reference: keep identity if the cell is older than the loop
            if v in s.cells and v in self._outer_cells(s):
                return v
        return self.deref_new(v, s)

    def _outer_cells(self, s):
        return ()

    def deref_new(self, v, s):
        return self.deref(v, s)

    def closed_form(self, k, init, b, dom, tv, colours, carried, bodies, init_of):
        ph = mk('ph', colours[k], init_type(init))
        if b is ph:
            return init
        phs = [mk('ph', colours[q], init_type(init_of(q))) for q in carried if q in bodies]
        if dom.op != 'inf':
            # element-wise stores
            t = self.try_tab(init, b, ph, phs, dom, tv)
            if t is not None:
                return t
            # sums
            d = None
            if not b.bl:
                d = self.delta(b, ph)
            if d is not None and not any(occurs(p, d) for p in phs):
                return add(init, close('sum', tv, [dom, d]))
            # list building
            fm = self.try_fmap(b, ph, phs)
            if fm is not None:
                cond, vals = fm
                if len(vals) == 1:
                    r = close('fmap', tv, [dom, cond, vals[0]])
                    return app('concat', init, r)
            # boolean accumulation
            if b.bl and ph.op == 'ph':
                pass
            acc = self.try_any(b, ph, phs, tv, dom, init)
            if acc is not None:
                return acc
        return close('mu', tv, [dom, mk('sym', 'run'), init, b])

    def own_reads(self, bodies, colours, init_of, tv):
        """an array written only at an index that is new in every iteration still holds its initial
        element there when the iteration begins"""
        for _ in range(3):
            m = {}
            for k, b in bodies.items():
                ph = mk('ph', colours[k], init_type(init_of(k)))
                x, first, good = b, None, True
                n = 0
                while x.op == 'store':
                    ix = x.args[1]
                    p = ix.args[0] if ix.args else None
                    if p is None or is_slice(p) or (first is not None and p is not first):
                        good = False
                        break
                    first = p
                    m_ = ((tv, 1),)
                    d = dict(poly_of(p))
                    if m_ not in d or occurs(tv, of_poly({q: c for q, c in d.items() if q != m_})) or p.op == 'ite':
                        good = False
                        break
                    x = x.args[0]
                    n += 1
                if not good or x is not ph or not n:
                    continue
                init = init_of(k)
                for t in subterms_of(bodies.values()):
                    if t.op == 'select' and t.args[0] is ph and t.args[1].args and t.args[1].args[0] is first:
                        m[t] = app('select', self.deref(init), t.args[1])
            if not m:
                return
            changed = False
            for k in bodies:
                b2 = subst_ph(bodies[k], m)
                if b2 is not bodies[k]:
                    bodies[k] = b2
                    changed = True
            if not changed:
                return

    def delta(self, b, ph):
        """b == ph + d on every leaf -> d"""
        if b.op == 'ite':
            if occurs(ph, b.args[0]):
                return None
            x, y = self.delta(b.args[1], ph), self.delta(b.args[2], ph)
            if x is None or y is None:
                return None
            return ite(atom(b.args[0]), x, y)
        if b is ph:
            return ZERO
        if b.op == 'poly':
            d = sub(b, ph)
            if not occurs(ph, d):
                return d
        return None

    def try_fmap(self, b, ph, phs):
        if b is ph:
            return FALSE, []
        if b.op == 'ite':
            if any(occurs(p, b.args[0]) for p in phs):
                return None
            x, y = self.try_fmap(b.args[1], ph, phs), self.try_fmap(b.args[2], ph, phs)
            if x is None or y is None:
                return None
            a = atom(b.args[0])
            c = ite(a, x[0], y[0])
            if not x[1]:
                return c, y[1]
            if not y[1]:
                return c, x[1]
            if len(x[1]) == 1 and len(y[1]) == 1:
                return c, [ite(a, x[1][0], y[1][0])]
            return None
        if b.op == 'append' and b.args[0] is ph:
            if any(occurs(p, b.args[1]) for p in phs):
                return None
            return TRUE, [b.args[1]]
        return None

    def try_any(self, b, ph, phs, tv, dom, init):
        """sticky flags: any / all over the iteration domain"""
        if init is not TRUE and init is not FALSE:
            return None
        if any(p is not ph and occurs(p, b) for p in phs):
            return None
        f = subst_ph(b, {ph: FALSE})
        t = subst_ph(b, {ph: TRUE})
        if occurs(ph, f) or occurs(ph, t) or not f.bl or not t.bl:
            return None
        if init is FALSE and t is TRUE:
            return atom(close('any', tv, [dom, f]))
        if init is TRUE and f is FALSE:
            return bnot(atom(close('any', tv, [dom, bnot(t)])))
        return None

    def try_tab(self, init, b, ph, phs, dom, tv):
        """b = store(... store(ph, ix, v)) with ix injective in tv -> tab"""
        chain = []
        x = b
        if x.op == 'ite':
            return None
        while x.op == 'store':
            chain.append((x.args[1], x.args[2]))
            x = x.args[0]
        if x is not ph or not chain:
            return None
        r = init
        for ix, v in reversed(chain):
            p0 = [p for p in ix.args if not is_slice(p)]
            inj = False
            for p in p0:
                d = dict(poly_of(p))
                m = ((tv, 1),)
                if m in d:
                    rest = {q: c for q, c in d.items() if q != m}
                    if not occurs(tv, of_poly(rest)):
                        inj = True
            if p0 and not inj and not any(occurs(tv, p) for p in p0) is None:
                if not any(p.op in ('select', 'attr', 'key') and occurs(tv, p) for p in p0):
                    return None
            if not p0:
                return None
            if any(occurs(p, ix) for p in phs):
                return None
            # reads of the own element before the write see the initial value
            own = app('select', ph, ix)
            known = {own: app('select', init, ix)}
            if len(ix.args) == 1:
                known[app('in', ix.args[0], ph)] = app('in', ix.args[0], init)
            v2 = subst_ph(v, known)
            if any(occurs(p, v2) for p in phs):
                return None
            r = close('tab', tv, [r, dom, ix, v2])
        return r

    def store_loc(self, st, k, v, tv, dom):
        kind, key = k
        keyt = key[0] if kind == 'heap' or (kind == 'vers' and type(key) is tuple) else key if kind in ('cells', 'vers') else None
        if keyt is not None and isinstance(keyt, T) and (occurs(tv, keyt)):
            # update of a family of objects: record as an effect
            name = key[1] if kind == 'heap' else '$content'
            if kind == 'vers':
                return
            ch = 'set:%s' % name
            # v already closed over tv may mention tv through the key
            ev = mk('ev', 'foreach', close('lam', tv, [keyt]), v)
            st.chans[ch] = app('seq', st.chans.get(ch, EPS), ev)
            getattr(st, kind).pop(key, None)
            return
        self.loc_set(st, k, v)

    # ------------------------------------------------------------ targets
    def assign_target(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1] if self.frames else None
            if fr is not None and t.id in fr.globals:
                self.st.heap[(mk('modvar', fr.module.name), t.id)] = v
                return
            self.st.env[t.id] = v
            self.st.env.pop('#once:' + t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            d = self.content(v)
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(elts) - i - 1
                for j, e in enumerate(elts[:i]):
                    self.assign_target(e, self.select(d, idx(num(j))))
                hi = NONE if after == 0 else num(-after)
                self.assign_target(elts[i].value, self.select(d, idx(_slice(num(i), hi, NONE))))
                for j, e in enumerate(elts[i + 1:]):
                    self.assign_target(e, self.select(d, idx(num(j - after))))
                return
            if d.op in ('tuple', 'list') and len(d.args) == len(elts):
                vals = d.args
            else:
                vals = [self.select(d, idx(num(i))) for i in range(len(elts))]
            for e, x in zip(elts, vals):
                self.assign_target(e, x)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            if b.op == 'fn' and FnVal.table[b.args[0]][0] == 'mod' and FnVal.table[b.args[0]][1] in self.repo.modules:
                self.st.heap[(mk('modvar', FnVal.table[b.args[0]][1]), t.attr)] = v
                return
            self.setattr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            ix = self.index(t.slice)
            cls = self.types.get(base)
            if cls is not None and self.repo.find_method(cls, '__setitem__'):
                self.inline(self.repo.find_method(cls, '__setitem__'), [base, ix.args[0] if len(ix.args) == 1 else ix, v], {}, base)
                return
            if base not in self.st.cells and (base.op == 'getattr' or base.op.startswith('f:')):
                # element of a foreign object looked up by name: an effect on that object
                self.event('obj:' + rootname(base), 'setitem', [base, ix, v], versioned=False)
                return
            c = self.content(base)
            keep = v if (v.op == 'cell' and c.op in ('list', 'dict', 'store', 'append')) else self.deref(v)
            if not self.set_content(base, lambda o: app('store', o, ix, keep), target=t.value):
                raise Unsupported('store target')
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred target')
        else:
            raise Unsupported('target %s' % type(t).__name__)

    def setattr(self, base, name, v):
        if base.op == 'ite':
            c = atom(base.args[0])
            for x, g in ((base.args[1], c), (base.args[2], bnot(c))):
                old = self.getattr(x, name)
                self.setattr(x, name, ite(g, v, old))
            return
        cls = self.types.get(base)
        if cls is not None:
            s = self.repo.find_setter(cls, name)
            if s is not None:
                self.inline(s, [base, v], {}, base)
                return
        else:
            s = self.repo.composite(name, setter=True)
            if s is not None and sum(1 for f in self.frames if f.func is s) == 0:
                self.inline(s, [base, v], {}, base)
                return
        self.st.heap[(base, name)] = v

    # ------------------------------------------------------------ attribute reads
    def getattr(self, base, name):
        if base.op == 'ite':
            return self.join(atom(base.args[0]), self.getattr(base.args[1], name), self.getattr(base.args[2], name))
        if base.op == 'fn':
            return self.fn_attr(base, name)
        k = (base, name)
        if k in self.st.heap:
            v = self.st.heap[k]
            return v
        if base.op == 'enum' and name in ('value', 'name'):
            cn, _, member = base.args[0].rpartition('.')
            if name == 'name':
                return string(member)
            c = self.repo.class_by_name(cn)
            if c is not None and isinstance(c.attrs.get(member), ast.Constant):
                return self.eval_in(c.attrs[member], c.module)
        cls = self.types.get(base)
        if cls is not None:
            m = self.repo.find_method(cls, name)
            if m is not None:
                if m.is_property:
                    return self.inline(m, [base], {}, base)
                return FnVal.term('method', m, base)
            nest = self.repo.find_nested(cls, name)
            if nest is not None:
                return FnVal.term('class', nest)
            a = self.repo.find_attr(cls, name)
            if a is not None and not any(h[1] == name and h[0] is base for h in self.st.heap):
                if isinstance(a[0], (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.UnaryOp, ast.BinOp)) and not self.instance_assigned(cls, name):
                    return self.eval_in(a[0], a[1].module)
        if cls is None and base.op == 'attr' and base.args[1] == 'cnf':
            owner = self.types.get(base.args[0])
            if owner is not None and name in self.repo.step_params(owner) and not self.instance_assigned(owner, name):
                # BaseAlgorithm.collect_parameter_values (decided under C11) copies the parameter to the step
                return self.getattr(base.args[0], name)
        if cls is None and (base.op in REFLIKE or base.op in ('hv', 'elem', 'new')):
            m = self.repo.composite(name)
            if m is not None and sum(1 for f in self.frames if f.func is m) == 0 and len(self.frames) <= MAXDEPTH:
                return self.inline(m, [base], {}, base)
        if name == 'pi' and (base.op == 'attr' or base.op == 'sym') and str(base.args[-1] if base.op == 'sym' else base.args[1]) in ('cst', 'arg_cst', '_cst'):
            return PI
        if name == 'pi' and base in getattr(self, 'cst_terms', ()):
            return PI
        c = self.content(base)
        if name == 'shape':
            return app('shape', self.deref(base))
        if name == 'size' and c.op not in REFLIKE:
            return app('size', self.deref(base))
        if name == 'T':
            return app('transpose', self.deref(base))
        if name in ('real', 'imag') and base.op not in REFLIKE:
            return app(name, self.deref(base))
        if name == 'dtype':
            return app('dtype', self.deref(base))
        if base.op in ('exc', 'exof') :
            return mk('attr', base, name)
        return self.initial_attr(base, name, self.st)

    def instance_assigned(self, cls, name):
        key = (cls, name)
        cache = self.__dict__.setdefault('_ia', {})
        if key not in cache:
            r = False
            for c in self.repo.mro(cls):
                for m in list(c.methods.values()) + list(c.setters.values()):
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr == name:
                            r = True
                        elif isinstance(n, ast.Constant) and n.value == name and any(
                                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' for x in ast.walk(m.node)):
                            r = True
            cache[key] = r
        return cache[key]

    def fn_attr(self, base, name):
        p = FnVal.table[base.args[0]]
        if p[0] == 'mod':
            dotted = p[1]
            if dotted in self.repo.modules:
                r = self.repo.resolve(self.repo.modules[dotted], name)
                if r is not None:
                    return self.of_resolved(r)
                if dotted + '.' + name in self.repo.modules:
                    return FnVal.term('mod', dotted + '.' + name)
            return self.of_resolved(('ext', dotted + '.' + name))
        if p[0] == 'ext':
            return self.of_resolved(('ext', p[1] + '.' + name))
        if p[0] == 'class':
            cls = p[1]
            k = (base, name)
            if k in self.st.heap:
                return self.st.heap[k]
            if self.repo.is_enum(cls):
                if name in cls.attrs:
                    return mk('enum', cls.name + '.' + name)
            m = self.repo.find_method(cls, name)
            if m is not None:
                if m.is_classmethod:
                    return FnVal.term('method', m, base)
                return FnVal.term('func', m)
            nest = self.repo.find_nested(cls, name)
            if nest is not None:
                return FnVal.term('class', nest)
            a = self.repo.find_attr(cls, name)
            if a is not None and isinstance(a[0], ast.Call):
                return mk('attr', FnVal.term('class', a[1]), name)      # one object, made when the class was defined
            if a is not None:
                return self.eval_in(a[0], a[1].module)
            if name == '__name__':
                return string(cls.name)
            return mk('attr', base, name)
        if p[0] == 'super':
            _, cls, selfv = p
            rc = self.types.get(selfv, cls)
            m = self.repo.find_method(rc, name, after=cls)
            if m is not None:
                if m.is_property:
                    return self.inline(m, [selfv], {}, selfv)
                return FnVal.term('method', m, selfv)
            return FnVal.term('extmethod', name, selfv)
        return mk('attr', base, name)

    def eval_in(self, expr, module):
        """evaluate a module/class level constant expression"""
        fr = Frame(None, module, None, None)
        saved = self.st.env
        self.st.env = {}
        self.frames.append(fr)
        try:
            if len(self.frames) > MAXDEPTH + 6:
                return unk('const depth')
            return self.eval(expr)
        finally:
            self.frames.pop()
            self.st.env = saved

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        return self.truth(self.eval(e))

    def truth(self, v):
        if v.op == 'ite':
            return ite(atom(v.args[0]), self.truth(v.args[1]), self.truth(v.args[2]))
        if v in self.st.cells:
            return truth(self.deref(v))
        return truth(v)

    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return unk('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float, complex)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if isinstance(v, bytes):
            return mk('bytes', v)
        if v is Ellipsis:
            return mk('sym', '...')
        return unk('constant')

    def e_Name(self, e):
        nm = e.id
        fr = self.frames[-1]
        if nm in fr.globals:
            return self.global_var(fr.module, nm)
        if nm in self.st.env:
            v = self.st.env[nm]
            once = self.st.env.get('#once:' + nm)
            if once is not None and not self.peek:
                self.st.env['#once:' + nm] = ONE
                if once is not ZERO:
                    v = ite(eq(once, ZERO), v, app('exhausted', self.deref(v)))
            return v
        if fr.func is not None and fr.func.closure and nm in fr.func.closure:
            return fr.func.closure[nm]
        r = self.repo.resolve(fr.module, nm)
        if r is not None:
            if r[0] == 'const':
                return self.global_var(r[2], nm if nm in r[2].consts else nm, r)
            return self.of_resolved(r)
        if nm == '__class__':
            return FnVal.term('class', fr.cls)
        if nm in BUILTINS:
            return FnVal.term('builtin', nm)
        return mk('global', fr.module.name, nm)

    def global_var(self, module, nm, r=None):
        key = (mk('modvar', module.name), nm)
        if key in self.st.heap:
            return self.st.heap[key]
        if r is None:
            r = self.repo.resolve(module, nm)
        if r is not None and r[0] == 'const':
            names = [k for k, v in r[2].consts.items() if v is r[1]]
            real = names[0] if names else nm
            if self.repo.const_stable(r[2], real):
                v = self.eval_in(r[1], r[2])
                if v.op == 'cell':
                    # mutable module constant: value at import time
                    return self.deref(v)
                return v
            return mk('attr', mk('modvar', r[2].name), real)
        if r is not None:
            return self.of_resolved(r)
        return mk('attr', mk('modvar', module.name), nm)

    def of_resolved(self, r):
        if r[0] == 'func':
            return FnVal.term('func', r[1])
        if r[0] == 'class':
            return FnVal.term('class', r[1])
        if r[0] == 'mod':
            return FnVal.term('mod', r[1])
        if r[0] == 'const':
            if self.repo.const_stable(r[2], next((k for k, v in r[2].consts.items() if v is r[1]), '')):
                v = self.eval_in(r[1], r[2])
                return self.deref(v) if v.op == 'cell' else v
            return mk('attr', mk('modvar', r[2].name), next((k for k, v in r[2].consts.items() if v is r[1]), '?'))
        if r[0] == 'ext':
            d = r[1]
            if d in EXT_CONST:
                return EXT_CONST[d]
            return FnVal.term('ext', d)
        raise Unsupported('resolve')

    def extname(self, e):
        """dotted external name of an expression, if it is one"""
        try:
            r = self.repo.resolve_dotted(self.frames[-1].module, e)
        except Exception:
            return None
        if isinstance(e, ast.Name) and e.id in self.st.env:
            v = self.st.env[e.id]
            if v.op == 'fn':
                p = FnVal.table[v.args[0]]
                if p[0] in ('ext', 'mod'):
                    return p[1]
            return None
        if r is None:
            return None
        if r[0] in ('ext', 'mod'):
            return r[1]
        return None

    def e_Attribute(self, e):
        base = self.eval(e.value)
        return self.getattr(base, e.attr)

    def e_Tuple(self, e):
        return mk('tuple', *self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.content(self.eval(x.value))
                if v.op in ('list', 'tuple'):
                    out.extend(v.args)
                else:
                    raise Unsupported('starred element')
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    parts.append(self.deref(self.eval(x.value)))
                else:
                    parts.append(mk('list', self.eval(x)))
            return self.fresh_cell(app('concat', *[mk('list', *p.args) if p.op == 'tuple' else p for p in parts]))
        return self.fresh_cell(mk('list', *[self.eval(x) for x in e.elts]))

    def e_Set(self, e):
        return self.fresh_cell(mk('set', *sorted([self.eval(x) for x in e.elts], key=lambda t: t.id)))

    def e_Dict(self, e):
        items = []
        rest = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.deref(self.eval(v))
                if x.op == 'dict':
                    items += list(x.args)
                else:
                    return self.fresh_cell(mk('dictmerge', mk('dict', *items), x))
            else:
                items += [self.eval(k), self.eval(v)]
        return self.fresh_cell(mk('dict', *items))

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_IfExp(self, e):
        c = self.cond(e.test)
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def rec(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: rec(i + 1), lambda: v if not v.bl else FALSE)
            return self.branch(c, lambda: v if not v.bl else TRUE, lambda: rec(i + 1))
        return rec(0)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return bnot(self.cond(e.operand))
        v = self.deref(self.eval(e.operand))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return app('invert', v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        if isinstance(e.op, ast.Mod):
            da = self.content(a)
            if da.op == 'str':
                return self.percent(da.args[0], b)
        return self.binop(e.op, a, b)

    def percent(self, fmt, b):
        b = self.deref(b)
        vals = list(b.args) if b.op == 'tuple' else [b]
        parts = []
        pos = 0
        i = 0
        for m in re.finditer(r'%(%|\(\w+\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z])?', fmt):
            parts.append(string(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(1) == '%':
                parts.append(string('%'))
                if m.group(3):
                    parts.append(string(m.group(2) + m.group(3)))
                continue
            if m.group(1):
                v = app('select', b, idx(string(m.group(1)[1:-1])))
            else:
                if i >= len(vals):
                    return mk('badfmt', string(fmt))
                v = vals[i]
                i += 1
            if m.group(3) in ('s', 'd', 'i') and not m.group(2):
                parts.append(app('str_of', v))
            else:
                parts.append(mk('fmtspec', v, m.group(2) + (m.group(3) or '')))
        parts.append(string(fmt[pos:]))
        return app('cat', *parts)

    def binop(self, op, a, b):
        a = self.deref(a)
        b = self.deref(b)
        n = type(op).__name__
        if n == 'Add':
            if is_strlike(a) or is_strlike(b):
                return app('cat', a, b)
            if is_listlike(a) or is_listlike(b):
                if a.op == 'tuple' and b.op == 'tuple':
                    return mk('tuple', *(a.args + b.args))
                return app('concat', a, b)
            return add(a, b)
        if n == 'Sub':
            return sub(a, b)
        if n == 'Mult':
            if a.op == 'list' and b.op == 'num' or b.op == 'list' and a.op == 'num':
                l, k = (a, b) if a.op == 'list' else (b, a)
                if k.args[0].denominator == 1 and 0 <= k.args[0] <= 64:
                    return mk('list', *(l.args * int(k.args[0])))
            if a.op == 'list' or b.op == 'list':
                l, k = (a, b) if a.op == 'list' else (b, a)
                if len(l.args) == 1:
                    return app('full', k, l.args[0])
            if is_matrix(a) and is_matrix(b):
                return app('matmul', a, b)
            return mul(a, b)
        if n == 'Div':
            return div(a, b)
        if n == 'FloorDiv':
            return app('floordiv', a, b)
        if n == 'Mod':
            return app('mod', a, b)
        if n == 'Pow':
            return app('pow', a, b)
        if n == 'MatMult':
            return app('dot', a, b)
        if n in ('BitAnd', 'BitOr') and all(x.bl or x.op.startswith('logical_') or x.op == 'full' and show(x.args[-1]).endswith('bool') for x in (a, b)):
            return app('logical_and' if n == 'BitAnd' else 'logical_or', a, b)
        return app('op_' + n, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, right in zip(e.ops, e.comparators):
            r = self.eval(right)
            c = self.compare(op, left, r)
            res = c if res is None else (band(res, c) if res.bl and c.bl else app('and_', res, c))
            left = r
        return res

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('In', 'NotIn'):
            x, c = self.deref(a), self.deref(b)
            r = app('contains', x, c)
            return bnot(r) if n == 'NotIn' else r
        a = self.deref(a)
        b = self.deref(b)
        if n in ('Eq', 'Is'):
            return eq(a, b)
        if n in ('NotEq', 'IsNot'):
            return bnot(eq(a, b))
        if n == 'Lt':
            return lt(a, b)
        if n == 'Gt':
            return lt(b, a)
        if n == 'LtE':
            return bnot(lt(b, a))
        if n == 'GtE':
            return bnot(lt(a, b))
        return unk('compare')

    def index(self, s):
        if isinstance(s, ast.Tuple):
            return idx(*[self.index1(x) for x in s.elts])
        return idx(self.index1(s))

    def index1(self, s):
        if isinstance(s, ast.Slice):
            lo = self.deref(self.eval(s.lower)) if s.lower is not None else NONE
            hi = self.deref(self.eval(s.upper)) if s.upper is not None else NONE
            st = self.deref(self.eval(s.step)) if s.step is not None else NONE
            return app('slice', lo, hi, st)
        v = self.eval(s)
        d = self.content(v)
        if d.op == 'slice_obj':
            return app('slice', *d.args)
        return self.deref(v)

    def e_Slice(self, e):
        return self.index1(e)

    def select(self, c, ix):
        return app('select', c, ix)

    def e_Subscript(self, e):
        base = self.eval(e.value)
        ix = self.index(e.slice)
        return self.getitem(base, ix)

    def getitem(self, base, ix):
        cls = self.types.get(base)
        if cls is not None:
            m = self.repo.find_method(cls, '__getitem__')
            if m is not None:
                return self.call_func(m, [ix.args[0] if len(ix.args) == 1 else mk('tuple', *ix.args)], {}, base)
        c = self.content(base)
        v = self.select(c, ix)
        if self.on_read is not None:
            self.on_read(self, c, ix)
        if self.trystack and v.op == 'select':
            key = ix.args[0] if len(ix.args) == 1 else ix
            if not is_slice(key):
                relevant = any(t is not None and any(h in ('KeyError', 'IndexError', 'LookupError')
                                                     for h in t) for t in self.trystack)
                if relevant:
                    if any(t is not None and 'KeyError' in t for t in self.trystack):
                        cnd = bnot(app('contains', self.deref(key), self.deref(c)))
                        if cnd is not FALSE:
                            self.exits.append(['raise', band(self.st.pc, cnd), self.st.copy(), mk('exc', 'KeyError')])
                            self.st.pc = band(self.st.pc, bnot(cnd))
                    else:
                        if key.op != "idx" or key.args:
                            self.may_raise(mk('exof', mk('ev', 'getitem', self.deref(c), self.deref(key))))
        return v

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.deref(self.eval(v.value))
                if v.format_spec is None and v.conversion in (-1, 115):
                    parts.append(app('str_of', x))
                else:
                    sp = ''
                    if v.format_spec is not None:
                        sp = ''.join(q.value for q in v.format_spec.values if isinstance(q, ast.Constant))
                    if v.conversion == 114:
                        x = app('repr', x)
                    parts.append(mk('fmtspec', x, sp) if sp else app('str_of', x))
        return app('cat', *parts)

    def e_Lambda(self, e):
        f = Func(e, self.frames[-1].module, None, closure=dict(self.st.env))
        return FnVal.term('localfunc', f)

    def comp(self, e, kind):
        saved = self.st.env
        self.st.env = dict(saved)
        acc = self.fresh_cell(mk('list') if kind != 'dict' else mk('list'))

        def gen(i):
            if i == len(e.generators):
                if kind == 'dict':
                    v = mk('tuple', self.deref(self.eval(e.key)), self.deref(self.eval(e.value)))
                else:
                    v = self.eval(e.elt)
                self.st.cells[acc] = app('append', self.st.cells[acc], v)
                return
            g = e.generators[i]
            it = self.eval(g.iter)

            def body():
                def ifs(j):
                    if j == len(g.ifs):
                        gen(i + 1)
                        return
                    c = self.cond(g.ifs[j])
                    self.branch(c, lambda: ifs(j + 1), lambda: None)
                ifs(0)
            self.loop_over(it, g.target, body, [])
        gen(0)
        self.st.env = saved
        return acc

    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        c = self.comp(e, 'list')
        return self.fresh_cell(app('setof', self.deref(c)))

    def e_DictComp(self, e):
        c = self.comp(e, 'dict')
        l = self.st.cells[c]
        if l.op == 'list' and all(x.op == 'tuple' for x in l.args):
            items = []
            for x in l.args:
                items += list(x.args)
            return self.fresh_cell(mk('dict', *items))
        return self.fresh_cell(app('dictof', self.deref(c)))

    def e_Yield(self, e):
        """hand-over to the consumer of a generator: an observable event, which may raise"""
        if sum(1 for f in self.frames if f.func is not None) != 1:
            raise Unsupported('yield in a nested call')
        v = self.eval(e.value) if e.value is not None else NONE
        r = self.event('yield', 'yield', [v])
        if self.trystack:
            self.may_raise(mk('exof', mk('ev', 'yield', self.deref(v))))
        return r

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign_target(e.target, v)
        return v

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in self.st.env:
            fr = self.frames[-1]
            for x in reversed(self.frames):
                if x.cls is not None:
                    fr = x
                    break
            if fr.cls is None and self.super_ctx is not None:
                return FnVal.term('super', *self.super_ctx)
            return FnVal.term('super', fr.cls, fr.selfv)
        if isinstance(f, ast.Name) and f.id in ('locals', 'vars') and not e.args:
            raise Unsupported('locals()')
        # numexpr: the expression is in a string
        en = self.extname(f)
        if en in ('numexpr.evaluate',) and e.args and isinstance(e.args[0], (ast.Constant, ast.JoinedStr, ast.Name)):
            v = self.eval(e.args[0])
            if v.op == 'str':
                return self.numexpr(v.args[0], e)
        if isinstance(f, ast.Attribute):
            base = self.eval(f.value)
            args, kwargs = self.call_args(e)
            if self.st.pc is FALSE:
                return NONE
            return self.call_attr(base, f.attr, args, kwargs, e)
        fv = self.eval(f)
        old, self.peek = self.peek, isinstance(f, ast.Name) and f.id in ('next', 'iter')
        try:
            args, kwargs = self.call_args(e)
        finally:
            self.peek = old
        return self.call_value(fv, args, kwargs, e)

    def numexpr(self, text, e):
        ld = {}
        for k in e.keywords:
            if k.arg == 'local_dict':
                d = self.deref(self.eval(k.value))
                if d.op == 'dict':
                    for i in range(0, len(d.args), 2):
                        ld[d.args[i].args[0]] = d.args[i + 1]
        tree = ast.parse(text, mode='eval').body
        saved = self.st.env
        self.st.env = dict(saved)
        self.st.env.update(ld)
        for nm in ('exp', 'sin', 'cos', 'sqrt', 'real', 'imag', 'arctan2', 'log10', 'log', 'conj'):
            if nm not in self.st.env:
                self.st.env[nm] = FnVal.term('ext', 'numpy.' + nm)
        try:
            return self.eval(tree)
        finally:
            self.st.env = saved

    def call_args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.content(self.eval(a.value))
                for v in (v.args if v.op == 'concat' else (v,)):
                    if v.op in ('list', 'tuple'):
                        args.extend(v.args)
                    else:
                        args.append(('star', self.deref(v)))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                ref = self.eval(k.value)
                v = self.content(ref)
                if v.op == 'dict' and all(x.op == 'str' for x in v.args[::2]):
                    for i in range(0, len(v.args), 2):
                        kwargs[v.args[i].args[0]] = v.args[i + 1]
                else:
                    kwargs['**'] = ref
            else:
                kwargs[k.arg] = self.eval(k.value)
        return args, kwargs

    def call_attr(self, base, name, args, kwargs, e=None):
        if base.op == 'ite':
            return self.branch(atom(base.args[0]),
                               lambda: self.call_attr(base.args[1], name, args, kwargs, e),
                               lambda: self.call_attr(base.args[2], name, args, kwargs, e))
        if base.op == 'fn':
            p = FnVal.table[base.args[0]]
            if p[0] in ('mod', 'ext', 'class', 'super'):
                return self.call_value(self.fn_attr(base, name), args, kwargs, e)
        k = (base, name)
        if k in self.st.heap:
            return self.call_value(self.st.heap[k], args, kwargs, e)
        cls = self.types.get(base)
        if cls is not None:
            m = self.repo.find_method(cls, name)
            if m is not None:
                if m.is_property:
                    return self.call_value(self.inline(m, [base], {}, base), args, kwargs, e)
                return self.call_func(m, args, kwargs, base, e)
            if not name.startswith('__') and not self.repo.ext_bases(cls) and self.instance_assigned(cls, name):
                return self.call_value(self.getattr(base, name), args, kwargs, e)
        return self.call_method(base, name, args, kwargs, e)

    def call_value(self, fv, args, kwargs, e=None):
        if fv.op == 'ite':
            return self.branch(atom(fv.args[0]),
                               lambda: self.call_value(fv.args[1], args, kwargs, e),
                               lambda: self.call_value(fv.args[2], args, kwargs, e))
        if fv.op == 'select' and len(fv.args[1].args) == 1 and fv.args[0].op == 'dict' and fv.args[0].args \
                and all(isconst(k) for k in fv.args[0].args[::2]) and all(v.op == 'fn' for v in fv.args[0].args[1::2]):
            # dispatch table
            d, key = fv.args[0].args, fv.args[1].args[0]

            def pick(i):
                if i == len(d):
                    self.do_raise(mk('exc', 'KeyError'))
                    return NONE
                return self.branch(eq(key, d[i]), lambda: self.call_value(d[i + 1], args, kwargs, e), lambda: pick(i + 2))
            return pick(0)
        if fv.op == 'fn':
            p = FnVal.table[fv.args[0]]
            if p[0] == 'func':
                return self.call_func(p[1], args, kwargs, None, e)
            if p[0] == 'localfunc':
                return self.inline(p[1], args, kwargs)
            if p[0] == 'method':
                return self.call_func(p[1], args, kwargs, p[2], e)
            if p[0] == 'class':
                return self.construct(p[1], args, kwargs)
            if p[0] == 'ext':
                return self.call_ext(p[1], args, kwargs)
            if p[0] == 'builtin':
                return self.call_builtin(p[1], args, kwargs)
            if p[0] == 'extmethod':
                if p[1] in ('__init__', '__setattr__'):
                    return NONE
                return self.effect_call(p[2], 'super.' + p[1], args, kwargs)
            if p[0] == 'partial':
                return self.call_value(p[1], list(p[2]) + args, dict(p[3], **kwargs), e)
        cls = self.types.get(fv)
        if cls is not None:
            m = self.repo.find_method(cls, '__call__')
            if m is not None:
                return self.call_func(m, args, kwargs, fv, e)
        if fv.op == 'attr':
            # call of an attribute that holds an object, or of a bound foreign method
            base, name = fv.args[0], fv.args[1]
            bc = self.types.get(base)
            if bc is not None and (self.instance_assigned(bc, name) or self.repo.find_method(bc, name) is None and not self.repo.ext_bases(bc)):
                return self.effect_call(base, name, args, kwargs, recv=fv)
            return self.call_method(base, name, args, kwargs, e)
        return self.effect_call(fv, '__call__', args, kwargs)

    def call_func(self, m, args, kwargs, selfv, e=None):
        key = m.qual.split(':')[1]
        key2 = m.module.relpath + ':' + key
        if m.cls is not None and selfv is not None and not m.is_static:
            full = [selfv] + list(args)
        else:
            full = list(args)
        if key in self.pure or key2 in self.pure or m.name in self.pure:
            b = self.bind(m, full, kwargs)
            vals = self.bound_values(m, b)
            return app('f:' + m.name, *[self.deref(v) for v in vals])
        if key in self.opaque or key2 in self.opaque or (m.name in self.opaque):
            b = self.bind(m, full, kwargs)
            vals = self.bound_values(m, b)
            if m.is_static or selfv is None:
                ch = 'fn:' + m.name
            elif any(d.split('.')[-1] == 'classmethod' for d in m.decor):
                ch = 'fn:' + m.name
                vals = vals[1:]
            else:
                ch = self.chan_of(selfv, m.name)
            seen = self.handed(m, vals)
            r = self.event(ch, m.name, vals + seen)
            self.havoc(m, vals)
            return r
        if any(isinstance(x, tuple) for x in full) or ('**' in kwargs and not m.node.args.kwarg):
            st = [x for x in full if isinstance(x, tuple)]
            a = m.node.args
            want = len(a.posonlyargs + a.args) - len(full) + 1 - sum(1 for k in kwargs)
            if len(st) == 1 and full[-1] is st[0] and a.vararg and '**' not in kwargs \
                    and len(full) > len(a.posonlyargs + a.args):
                pass
            elif len(st) == 1 and full[-1] is st[0] and '**' not in kwargs and not a.vararg and want >= 0:
                seq = self.deref(st[0][1])
                full = full[:-1] + [app('select', seq, idx(num(i))) for i in range(want)]
            else:
                raise Unsupported('star call of %s' % m.qual)
        if any(d.split('(')[0].split('.')[-1] == 'contextmanager' for d in m.decor):
            b = self.bind(m, full, kwargs)
            vals = self.bound_values(m, b)
            return self.event(self.chan_of(selfv, m.name) if selfv is not None else 'fn:' + m.name, m.name, vals)
        return self.inline(m, full, kwargs, selfv)

    WSETS = {}
    faults = False
    peek = False

    def handed(self, m, vals):
        """attributes the function under analysis has set before the call on the objects it hands over,
        and which the called function looks at"""
        st = self.st
        rd = self.repo.reads(m)
        a = m.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        out = []
        for p, o in zip(ps, vals):
            names = rd.get(p)
            if not names:
                continue
            for k in sorted((k for k in st.heap if k[0] is o and k[1] in names), key=lambda k: k[1]):
                v = self.deref(st.heap[k])
                if v is not mk('attr', o, k[1]):
                    out.append(mk('with', k[1], v))
        return out

    def replaced(self, m, vals, o, name):
        """m sets the attribute of o whatever happens, without looking at it"""
        a = m.node.args
        for p, v in zip([p.arg for p in a.posonlyargs + a.args], vals):
            if v is o and name not in self.repo.reads(m).get(p, ()):
                for s in m.node.body:
                    for t in s.targets if isinstance(s, ast.Assign) else ():
                        if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == p:
                            return True
        return False

    def havoc(self, m, vals):
        """an opaque call may change the attributes (and containers) its transitive callees assign"""
        w, mut = self.repo.writes(m)
        if not w and not mut:
            return
        st = self.st
        ev = mk('ev', m.name, *[self.deref(v) for v in vals])
        both = w | mut
        key = self.WSETS.setdefault(both, len(self.WSETS))
        self.WSETS[key] = both
        objs = [v for v in vals if v.op in REFLIKE or v.op in ('obj', 'new')]
        for o in objs:
            ver = app('seq', st.vers.get((o, key), EPS), ev)
            held, gone = {}, []
            for k in [k for k in st.heap if k[0] is o and k[1] in both]:
                if k[1] in w:
                    gone.append((k, self.deref(st.heap[k])))
                    del st.heap[k]
                else:
                    held[k[1]] = st.heap[k]
            st.vers[(o, key)] = ver
            for k, v in gone:
                # what was there before may still be there
                n = self.initial_attr(o, k[1], st)
                if (v.op != 'attr' or v.args[:2] != n.args[:2]) and not self.replaced(m, vals, o, k[1]):
                    st.heap[k] = mk('attr', o, k[1], *n.args[2:], mk('was', v)) if v.op != 'cell' else n
            for n, v in held.items():
                # same container object, changed content
                if v.op == 'cell' or v in st.cells:
                    st.cells[v] = mk('hv', o, n, ver)

    def bound_values(self, m, b):
        if b is None:
            raise Unsupported('cannot bind %s' % m.qual)
        env, names, kwn = b
        a = m.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if p not in env:
                env[p] = self.eval_in(d, m.module)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.eval_in(d, m.module)
        vals = [env.get(p, UNDEF) for p in pos + kwn]
        if a.vararg and env.get(a.vararg.arg) is not None:
            vals.append(env[a.vararg.arg])
        if a.kwarg and env.get(a.kwarg.arg) is not None:
            vals.append(env[a.kwarg.arg])
        return vals

    def construct(self, cls, args, kwargs):
        ext = self.repo.ext_bases(cls)
        if self.is_exception(cls):
            return mk('exc', cls.name)
        if self.repo.is_enum(cls):
            return app('enumof', string(cls.name), *[self.deref(a) for a in args])
        init = self.repo.find_method(cls, '__init__')
        if cls.name in self.inline_new and init is not None:
            self.ncell += 1
            obj = mk('obj', self.ncell)
            self.types[obj] = cls
            self.inline(init, [obj] + list(args), kwargs, obj)
            return obj
        vals = []
        if init is not None and not any(isinstance(x, tuple) for x in args) and '**' not in kwargs:
            b = self.bind(init, [UNDEF] + list(args), kwargs)
            if b is not None:
                vals = self.bound_values(init, b)[1:]
            else:
                raise Unsupported('constructor of %s' % cls.name)
        else:
            vals = [a[1] if isinstance(a, tuple) else a for a in args]
            for k in sorted(kwargs):
                vals.append(mk('kw', k, self.deref(kwargs[k])))
        r = self.event('new:' + cls.name, 'new', [string(cls.name)] + vals)
        self.known_new = getattr(self, 'known_new', {})
        self.known_new[r] = cls
        return r

    def is_exception(self, cls):
        return any(e.split('.')[-1] in EXC_PARENT or e.split('.')[-1] in ('Exception', 'BaseException') or e.split('.')[-1].endswith(('Error', 'Exception', 'Warning'))
                   for e in self.repo.ext_bases(cls))

    def chan_of(self, base, name):
        """effect channel of a call on a foreign object"""
        d = base
        return 'obj:' + rootname(d)

    def call_method(self, base, name, args, kwargs, e=None):
        """method of an object without a known repository class"""
        c = self.content(base)
        if any(isinstance(x, tuple) for x in args):
            return self.effect_call(base, name, [x[1] if isinstance(x, tuple) else x for x in args], kwargs)
        target = e.func.value if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
            isinstance(e.func.value, ast.Subscript) else None
        r = container_method(self, base, c, name, args, kwargs, target)
        if r is not None:
            return r
        return self.effect_call(base, name, args, kwargs)

    def effect_call(self, base, name, args, kwargs, recv=None):
        args = [x[1] if isinstance(x, tuple) else x for x in args]
        vals = self.sig_args(name, args, kwargs, self.deref(base))
        if name in AXES_MARKS:
            # independent settings of one drawing: their order among each other does not matter
            return self.event('draw:' + name, name, [base] + vals, versioned=False)
        ch = self.chan_of(self.deref(base), name)
        if name in PURE_METHODS:
            return app('m:' + name, self.deref(base), *[self.deref(v) for v in vals])
        if name in QUERY_METHODS:
            r = self.query(ch, name, [base] + vals)
            self.may_raise(mk('exof', r.args[0]) if r.op == 'ret' else mk('exof', r))
            return r
        st = self.st
        b = base if recv is None else recv
        ms = [m for m in self.repo.methods_by_name(name) if not m.module.relpath.startswith('spec/')]
        seen = self.handed(ms[0], [b]) if len(ms) == 1 and not ms[0].is_static else []
        r = self.event(ch, name, [base] + vals + seen)
        # the receiver may have changed
        if name not in NONMUTATING:
            ver = mk('ev', name, *[self.deref(v) for v in vals])
            gone = [(k, self.deref(st.heap[k])) for k in st.heap if k[0] is b]
            for k, v in gone:
                del st.heap[k]
            st.vers[b] = app('seq', st.vers.get(b, EPS), ver)
            for k, v in gone:
                n = self.initial_attr(b, k[1], st)
                if (v.op != 'attr' or v.args[:2] != n.args[:2]) and v.op != 'cell' and not (len(ms) == 1 and self.replaced(ms[0], [b], b, k[1])):
                    st.heap[k] = mk('attr', b, k[1], *n.args[2:], mk('was', v))
        return r

    def sig_args(self, name, args, kwargs, base=None):
        """order keyword arguments by the signature of the repository method with this name, if unique"""
        if not kwargs and False:
            return args
        ms = self.repo.methods_by_name(name)
        sigs = set()
        if len(ms) > 1 and isinstance(base, T) and base.op in ('modvar', 'attr') and isinstance(base.args[1], str):
            # a receiver called after its class
            nm = base.args[1].replace('_', '').lower()
            own = [m for m in ms if m.cls is not None and m.cls.name.lower() == nm]
            ms = own or ms
        for m in ms:
            a = m.node.args
            sigs.add((tuple(p.arg for p in a.args[(0 if m.is_static else 1):]), bool(a.vararg), bool(a.kwarg)))
        if ms and len(sigs) == 1 and '**' not in kwargs:
            m = ms[0]
            b = self.bind(m, args, kwargs, skip_self=not m.is_static)
            if b is not None:
                env, names, kwn = b
                a = m.node.args
                pos = [p.arg for p in a.posonlyargs + a.args]
                for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                    if p not in env:
                        env[p] = self.eval_in(d, m.module)
                if not m.is_static:
                    pos = pos[1:]
                vals = [env.get(p, UNDEF) for p in pos]
                if a.kwarg:
                    d = env[a.kwarg.arg]
                    items = sorted([(d.args[i], d.args[i + 1]) for i in range(0, len(d.args), 2)], key=lambda x: x[0].args[0])
                    vals.append(mk('dict', *[y for x in items for y in x]))
                if a.vararg:
                    vals.append(env[a.vararg.arg])
                return vals
        return list(args) + [mk('kw', k, self.deref(v)) for k, v in sorted(kwargs.items())]

    # ------------------------------------------------------------ externals
    def call_ext(self, dotted, args, kwargs):
        return call_external(self, dotted, args, kwargs)

    def call_builtin(self, name, args, kwargs):
        return call_builtin(self, name, args, kwargs)


AXES_MARKS = frozenset(('set_xlabel', 'set_ylabel', 'set_zlabel', 'set_title', 'set_xlim3d', 'set_ylim3d', 'set_zlim3d',
                        'axvline', 'axhline', 'grid', 'set_alpha'))


def rootname(t):
    """stable name of the object a term denotes, for channel selection"""
    while True:
        if t.op == 'attr':
            b = rootname(t.args[0])
            return b + '.' + t.args[1]
        if t.op == 'sym':
            return str(t.args[0])
        if t.op == 'ret':
            ev = t.args[0]
            return 'ret:' + str(ev.args[0])
        if t.op == 'select':
            return rootname(t.args[0]) + '[]'
        if t.op in ('cell', 'obj'):
            return 'local'
        if t.op == 'ph':
            return 'loopvar'
        if t.op == 'ite':
            ns = {rootname(x) for x in leaf_values(t)}
            if len(ns) == 1:
                return ns.pop()
        return t.op


def init_type(t):
    """coarse type marker kept on loop placeholders"""
    if t.op == 'num':
        return ZERO if t.args[0].denominator == 1 else num(Fraction(1, 2))
    return EPS


def leaf_values(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.op != 'ite':
            out.add(x)
        elif x not in seen:
            seen.add(x)
            todo.extend(x.args[1:])
    return out


_TAILS = {}


def tail_breaks(node):
    """the body of a function; `return` inside a loop that ends the function is `break`"""
    if node not in _TAILS:
        _TAILS[node] = _tail(node.body)
    return _TAILS[node]


def _tail(body):
    if not body:
        return body
    s = body[-1]
    if isinstance(s, (ast.For, ast.While)) and not s.orelse:
        rets = [n for b in s.body for n in walk_own(b, False)if isinstance(n, ast.Return)]
        inner = [n for b in s.body for n in walk_own(b, True) if isinstance(n, ast.Return)]
        if not rets or len(rets) != len(inner) or any(not (r.value is None or isinstance(r.value, ast.Constant) and r.value.value is None) for r in rets):
            return body
        s = copy.deepcopy(s)
        s.body = [ReturnToBreak().visit(b) for b in s.body]
        return body[:-1] + [s]
    if isinstance(s, ast.If):
        b, o = _tail(s.body), _tail(s.orelse)
        if b is not s.body or o is not s.orelse:
            n = copy.copy(s)
            n.body, n.orelse = b, o
            return body[:-1] + [n]
    return body


def walk_own(n, loops):
    """nodes of a statement without nested functions (and without nested loops)"""
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) or (not loops and isinstance(n, (ast.For, ast.While))):
        return
    for c in ast.iter_child_nodes(n):
        yield from walk_own(c, loops)


class ReturnToBreak(ast.NodeTransformer):
    def visit_Return(self, n):
        return ast.copy_location(ast.Break(), n)

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n


def mentions_ph(t, colour):
    for x in [t] + list(children(t)):
        pass
    memo = {}

    def rec(x):
        if x in memo:
            return memo[x]
        memo[x] = False
        r = x.op == 'ph' or any(rec(c) for c in children(x))
        memo[x] = r
        return r
    return rec(t)


def subst_ph(t, m):
    return subst(t, m, into_ph=False)


def is_strlike(t):
    if t.op == 'ite':
        return is_strlike(t.args[1]) or is_strlike(t.args[2])
    return t.op in ('str', 'cat', 'str_of', 'repr', 'fmtspec', 'join')


def is_listlike(t):
    return t.op in ('list', 'append', 'concat', 'fmap', 'tuple', 'sorted', 'keys')


def is_matrix(t):
    if t.op == 'asmatrix':
        return True
    if t.op == 'transpose':
        return is_matrix(t.args[0])
    if t.op == 'poly':
        return any(is_matrix(a) for a in children(t))
    if t.op == 'matmul':
        return True
    return False


def issub(a, b):
    """builtin exception hierarchy"""
    if a == b or b == 'BaseException':
        return True
    if b in ('IOError', 'EnvironmentError'):
        b = 'OSError'
    if a in ('IOError', 'EnvironmentError'):
        a = 'OSError'
    while a in EXC_PARENT:
        if a == b:
            return True
        a = EXC_PARENT[a]
    return a == b


class Summary:
    """observable result of analysing one function"""

    def __init__(self, it, ret):
        self.it = it
        self.ret = ret
        st = it.st
        self.raises = [e for e in it.exits if e[0] == 'raise' and e[1] is not FALSE]
        self.fall = st
        self.fall_pc = st.pc
        self.pairs = [(e[1], e[2]) for e in self.raises]

    def _combine(self, getter, fallval):
        v = fallval if self.fall_pc is not FALSE else None
        for e in reversed(self.raises):
            x = getter(e)
            if v is None:
                v = x
            else:
                v = ite(e[1], x, v) if x is not v else v
        return v

    def outcome(self):
        """RET(value) / RAISE(class) decision diagram"""
        f = app('RET', self.it.deref(self.ret, self.fall)) if self.fall_pc is not FALSE else mk('RAISE', 'none')

        def rx(e):
            return raise_leaf(e[3])
        return self.canon(self._combine(rx, f))

    def attr(self, base, name, onraise=False):
        def g(st):
            v = self.it.loc_get(st, ('heap', (base, name)))
            return self.it.deref(v, st)
        return self._final(g, onraise)

    def cell(self, t, onraise=False):
        def g(st):
            return self.it.deref(t, st)
        return self._final(g, onraise)

    def _final(self, g, onraise):
        """value after normal return; with onraise also after an exception"""
        if onraise:
            return self.canon(self._combine(lambda e: g(e[2]), g(self.fall)))
        if self.fall_pc is FALSE:
            return UNDEF
        v = self.canon(g(self.fall))
        return restrict(v, self.canon(self.fall_pc))

    def chan(self, name):
        def g(st):
            return st.chans.get(name, EPS)
        return self.canon(self._combine(lambda e: g(e[2]), g(self.fall)))

    def canon(self, t):
        """function values are compared by what they compute"""
        fns = [x for x in subterms_of([t]) if x.op == 'fn']
        if not fns:
            return t
        m = {}
        for x in fns:
            y = self.it.fn_term(x)
            if y is not x:
                m[x] = y
        return subst(t, m) if m else t

    def all_chans(self):
        out = []
        for s in [self.fall] + [e[2] for e in self.raises]:
            for k in s.chans:
                if k not in out:
                    out.append(k)
        return out

    def all_cells(self):
        """caller-visible containers whose content changed"""
        out = []
        for s in [self.fall] + [e[2] for e in self.raises]:
            for k, v in s.cells.items():
                if k.op not in ('cell', 'obj') and v is not k and k not in out and not inner_cell(k):
                    out.append(k)
        return out

    def written(self):
        """attribute locations written on any outcome"""
        out = []
        for s in [self.fall] + [e[2] for e in self.raises]:
            for k in s.heap:
                if k not in out:
                    out.append(k)
        return out


def restrict(v, pc, memo=None):
    """v on the inputs where pc holds (None where it never does)"""
    memo = {} if memo is None else memo
    if pc is TRUE:
        return v
    if pc is FALSE:
        return None
    k = (v, pc)
    if k in memo:
        return memo[k]
    a, hi, lo = pc.args
    h = restrict(assume(v, a, True), hi, memo)
    l = restrict(assume(v, a, False), lo, memo)
    r = h if l is None else (l if h is None else (h if h is l else ite(atom(a), h, l)))
    memo[k] = r
    return r


def raise_leaf(v):
    if v.op == 'ite':
        return ite(atom(v.args[0]), raise_leaf(v.args[1]), raise_leaf(v.args[2]))
    if v.op == 'exc':
        return mk('RAISE', v.args[0])
    if v.op == 'fn':
        p = FnVal.table[v.args[0]]
        return mk('RAISE', p[1].name if p[0] == 'class' else str(p[1]))
    return mk('RAISE', v)


def inner_cell(t):
    while t.op in ('attr', 'select'):
        t = t.args[0]
    return t.op in ('cell', 'obj', 'ph', 'tv')


def subterms_of(ts):
    seen = {}
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen[x] = True
        stack.extend(children(x))
    return list(seen)
