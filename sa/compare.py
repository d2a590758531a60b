"""Comparison of two value graphs: EQUAL / DIFF / UNKNOWN.

EQUAL  : one value number (equal for every input).
DIFF   : the graphs differ at a definite construct (constant, field, operator, gate, effect).
UNKNOWN: they differ only where the normal form is known to be incomplete (differently
         shaped loops, operations outside the vocabulary); the obligation stays undecided.
"""
import re
from .terms import *
from .vocab import KNOWN
from . import loops

EQUAL, DIFF, UNKNOWN = 'equal', 'diff', 'unknown'
LOOPY = {'mu', 'fmap', 'map', 'tab', 'sum', 'ph', 'col', 'any', 'scan', 'lam'}
# other ways to write an array expression: no difference in meaning by themselves
REWRITE = {'reshape', 'ravel', 'where', 'nonzero', 'argwhere', 'cumsum', 'npsum', 'npany', 'npall', 'logical_and', 'logical_or', 'matmul', 'asmatrix'}
COMPUTE = {'curve_fit'}
INJ = {'list', 'tuple', 'dict', 'seq', 'ev', 'RET', 'RAISE', 'append', 'cat', 'join', 'idx', 'concat', 'set', 'kw',
       'slice', 'store', 'attr', 'select', 'map', 'tab', 'fmap'}
TRACE = {'seq', 'eps', 'ev'}
PURE_STRUCT = {'num', 'str', 'sym', 'none', 'true', 'false', 'enum', 'undef', 'attr', 'select', 'idx', 'slice', 'store',
               'poly', 'pgrp', 'ite', 'cmp', 'eq', 'truth', 'in', 'list', 'tuple', 'dict', 'set', 'append', 'concat',
               'cat', 'join', 'len', 'full', 'arange', 'seq', 'eps', 'ev', 'ret', 'RET', 'RAISE', 'exp', 'sqrt', 'cos',
               'sin', 'abs', 'min', 'max', 'pos', 'int', 'floordiv', 'mod', 'round', 'raises', 'exof', 'trk', 'new',
               'obj', 'bv', 'tv', 'newaxis', 'kw', 'bytes', 'cell', 'divzero', 'pow', 'contains', 'class', 'exc',
               'isexc', 'modvar', 'global', 'key', 'attrset', 'bigmul', 'dot', 'matmul', 'lamf', 'bound', 'param', 'hv', 'memo', 'exhausted', 'with', 'was'} | LOOPY


def subterms(t, out=None):
    out = {} if out is None else out
    stack = [t]
    while stack:
        x = stack.pop()
        if x in out:
            continue
        out[x] = True
        stack.extend(children(x))
    return out


def opname(t):
    if t.op == 'ev':
        return 'ev:' + str(t.args[0])
    return t.op


def known_op(o):
    if o in PURE_STRUCT or o in KNOWN:
        return True
    if o.startswith(('f:', 'm:', 'ev:')):
        return True
    return False


def names(t):
    out = set()
    for x in subterms(t):
        if x.op == 'attr':
            out.add('.' + x.args[1])
        elif x.op == 'sym':
            out.add(str(x.args[0]))
        elif x.op.startswith('f:'):
            out.add(x.op)
        elif x.op == 'ev':
            out.add('ev:' + str(x.args[0]))
    return out


class Comparer:
    def __init__(self, c, s, regc=None, regs=None, depth=0):
        self.c, self.s = c, s
        self.regc, self.regs, self.depth = regc or {}, regs or {}, depth
        self.memo = {}
        self.sc = subterms(c)
        self.ss = subterms(s)
        self.sops = {opname(x) for x in self.ss}
        self.unc = {}

    def run(self):
        if self.c is self.s:
            return (EQUAL, '', None, None)
        r = self.loops()
        if r is not None:
            return r
        r = self.cmp(self.c, self.s)
        if r[0] != EQUAL and not NOFOLD:
            ex = unfold([self.c, self.s])
            if ex is not None:
                NOFOLD.append(1)
                try:
                    if ex[0] is ex[1] or Comparer(ex[0], ex[1], self.regc, self.regs, self.depth).cmp(*ex)[0] == EQUAL:
                        return (EQUAL, '', None, None)
                finally:
                    NOFOLD.pop()
        if r[0] == DIFF and not NOFOLD:
            # a % b is a - b * (a // b)
            fd = {x.args for x in {**self.sc, **self.ss} if x.op == 'floordiv'}
            m = {x: sub(x.args[0], mul(x.args[1], mk('floordiv', *x.args)))
                 for x in {**self.sc, **self.ss} if x.op == 'mod' and x.args in fd}
            if m:
                NOFOLD.append(1)
                try:
                    c2, s2 = subst(self.c, m), subst(self.s, m)
                    if c2 is s2 or Comparer(c2, s2, self.regc, self.regs, self.depth).cmp(c2, s2)[0] == EQUAL:
                        return (EQUAL, '', None, None)
                finally:
                    NOFOLD.pop()
        if r[0] == DIFF and self.order_of_failures():
            return (UNKNOWN, 'order of calls that fail: ' + r[1], r[2], r[3])
        if r[0] == UNKNOWN:
            r2 = self.deps()
            if r2 is not None:
                return r2
        return r

    def order_of_failures(self):
        """the same calls that compute something may fail on both sides, and the results agree when none fails, and
        when any one of them fails: only which of two failures comes first differs"""
        rc = [x for x in {**self.sc, **self.ss} if x.op == 'raises']
        if not 2 <= len(rc) <= 6:
            return False

        def ev(x):
            x = x.args[0]
            return x.args[0] if x.op == 'exof' and x.args and isinstance(x.args[0], T) and x.args[0].op == 'ev' else None
        if any(ev(x) is None or ev(x).args[0] not in COMPUTE for x in rc):
            return False
        for one in [None] + rc:
            c, s = self.c, self.s
            for x in rc:
                c, s = assume(c, x, x is one), assume(s, x, x is one)
            if c is not s and self.cmp(c, s)[0] != EQUAL and (one is None or not self.cut_short(c, s)):
                return False
        return True

    def cut_short(self, c, s):
        """two sequences of effects of which one is the beginning of the other, in every case"""
        if c is s:
            return True
        if c.op == 'ite' or s.op == 'ite':
            v = top(c, s)
            return all(self.cut_short(x, y) for x, y in zip(cof(c, v), cof(s, v)))

        def flat(t):
            out = []
            while t.op == 'seq':
                out.append(t.args[1])
                t = t.args[0]
            return out[::-1] if t.op == 'eps' else None
        a, b = flat(c), flat(s)
        return a is not None and b is not None and a[:len(b)] == b[:len(a)]

    # ---- loops: compare their recurrences, then the rest with common names for the loop results
    def loops(self):
        if self.depth > 3:
            return None
        mc = [m for m in loops.outer_mus(self.c, self.regc)]
        ms = [m for m in loops.outer_mus(self.s, self.regs)]
        if not mc or not ms or not (set(mc) ^ set(ms)):
            return None

        def recs(mus, reg):
            out = {}
            for m in mus:
                rec, k, sub = loops.lookup(m, reg)
                out.setdefault(id(rec), (rec, sub, []))[2].append((m, k))
            return sorted(out.values(), key=lambda x: x[0].seq)
        rc = recs([m for m in mc if m not in ms], self.regc)
        rs = recs([m for m in ms if m not in mc], self.regs)
        if len(rc) != len(rs):
            return None
        sc, ss = {}, {}
        worst = None
        for i, (x, y) in enumerate(zip(rc, rs)):
            p, verd = pair_loops(x, y, self.regc, self.regs, self.depth)
            inv = {}
            for m, k in x[2]:
                k2 = p.a.k2(k)
                q = p.pair.get(k2)
                if q is None:
                    return None
                nm = mk('sym', 'loop%d.%d.%s:%s' % (self.depth, i, q[0], loops.locname(q)))
                sc[m] = nm
                inv[q] = nm
                r = verd.get(k2)
                if r is None:
                    return None
                if r[0] == DIFF and (worst is None or worst[0] != DIFF):
                    worst = (DIFF, 'in loop: ' + r[1], r[2], r[3])
                elif r[0] == UNKNOWN and worst is None:
                    worst = r
            for m, k in y[2]:
                k2 = p.b.k2(k)
                if k2 not in inv:
                    # the code does not use this result of the loop
                    if loops.anon(k2):
                        return (UNKNOWN, 'loop result without counterpart', self.c, self.s)
                    inv[k2] = mk('sym', 'loop%d.%d.%s:%s' % (self.depth, i, k2[0], loops.locname(k2)))
                ss[m] = inv[k2]
        self.variants(self.c, sc)
        self.variants(self.s, ss)
        c, s = subst(self.c, sc), subst(self.s, ss)
        r = Comparer(c, s, self.regc, self.regs, self.depth).run()
        if r[0] != EQUAL and worst is not None and worst[0] == DIFF:
            # both the loop and the use of its result differ: one may make up for the other
            return (UNKNOWN, 'shape of loop and use of its result: ' + worst[1], worst[2], worst[3])
        if r[0] == DIFF and worst is not None and worst[0] == UNKNOWN:
            return worst
        if r[0] == DIFF:
            return r
        if worst is not None:
            return worst
        return r

    def variants(self, t, names):
        """the same loops as they read under the conditions of a case distinction"""
        base = list(names.items())
        todo, seen, n = [(t, base)], set(), 0
        while todo and n < 200:
            x, cur = todo.pop()
            k = (x, tuple(m for m, _ in cur))
            if x.op != 'ite' or k in seen:
                continue
            seen.add(k)
            n += 1
            for v, y in ((True, x.args[1]), (False, x.args[2])):
                c2 = [(assume(m, x.args[0], v), nm) for m, nm in cur]
                for m, nm in c2:
                    if m.op == 'mu':
                        names.setdefault(m, nm)
                todo.append((y, c2))

    def deps(self):
        bad = [opname(x) for x in self.sc if not known_op(opname(x)) and opname(x) not in self.sops]
        if bad:
            return None
        miss = sorted(n for n in names(self.s) - names(self.c) if n.startswith(('.', 'f:')) or re.fullmatch(r'arg\d+|varargs|kwargs', n))
        if miss:
            return (DIFF, 'does not depend on ' + ', '.join(miss), None, None)
        return None

    # ---- uncertainty
    def uncertain(self, t, other):
        """t contains a loop form or foreign operation the other side does not contain"""
        k = (t, other is self.ss)
        r = self.unc.get(k)
        if r is None:
            r = False
            for x in subterms(t):
                if x in other:
                    continue
                o = opname(x)
                if x.op == 'len' and x.args[0].op == 'select' and any(p.op == 'slice' for p in x.args[0].args[1].args):
                    # length of a part: the bounds may exceed the whole
                    r = True
                    break
                if x.op in LOOPY and x.op not in ('ph', 'col', 'lam'):
                    r = True
                    break
                if (not known_op(o) or o in REWRITE) and o not in self.sops:
                    r = True
                    break
            self.unc[k] = r
        return r

    def cmp(self, c, s):
        if c is s:
            return (EQUAL, '', None, None)
        k = (c, s)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = (EQUAL, '', None, None)   # coinductive
            r = self._cmp(c, s)
            self.memo[k] = r
        return r

    def _cmp(self, c, s):
        tick()
        if c.op == 'ite' or s.op == 'ite':
            v = top(c, s)
            c1, c0 = cof(c, v)
            s1, s0 = cof(s, v)
            c1, s1 = assume(c1, v, True), assume(s1, v, True)
            c0, s0 = assume(c0, v, False), assume(s0, v, False)
            if v.op == 'raises' and (v in self.sc) != (v in self.ss):
                r = self.same_call(v)
                if r is not None:
                    return r
            rs = []
            for x, y, w in ((c1, s1, ''), (c0, s0, 'not ')):
                r = self.cmp(x, y)
                if r[0] == DIFF and v.op == 'truth' and {x, y} == {v.args[0], FALSE if w else TRUE}:
                    # a value stands for its own truth value
                    r = (UNKNOWN, 'shape', x, y)
                if r[0] == DIFF and not w and v.op == 'eq' and isconst(v.args[1]) and not isconst(v.args[0]):
                    m = {v.args[0]: v.args[1]}
                    x, y = subst(x, m), subst(y, m)
                    r = self.cmp(x, y)
                if r[0] != EQUAL and v.op == 'cmp' and not NOFOLD:
                    # moduli of values whose sign is known here
                    m = self.signs(v, not w)
                    if m:
                        x2, y2 = subst(x, m), subst(y, m)
                        if x2 is not x or y2 is not y:
                            r = self.cmp(x2, y2)
                if r[0] == DIFF and v.op == 'eq' and v.args[0].op == 'ph' and v.args[1] is NONE and (v in self.sc) != (v in self.ss):
                    # first round: told by a value still missing on one side, by the number of the round on the other
                    here, there = (self.sc, self.ss) if v in self.sc else (self.ss, self.sc)
                    if any(a.op == 'cmp' and a.args[0].op in ('tv', 'bv') and a not in here for a in there):
                        r = (UNKNOWN, 'gate ' + show(v, 4)[:160], x, y)
                if r[0] == DIFF and not NOFOLD and v.op != 'ph':
                    # the same gate inside, in the initial value of a loop: decided here
                    m = {v: FALSE if w else TRUE}
                    x2, y2 = subst(x, m), subst(y, m)
                    if w and v.op == 'truth':
                        # only the empty list (or nothing) is false
                        x3, y3 = (subst(z, {v.args[0]: mk('list')}) for z in (x2, y2))
                    else:
                        x3, y3 = x2, y2
                    if x2 is not x or y2 is not y:
                        r = self.cmp(x2, y2)
                    if r[0] == DIFF and (x3 is not x2 or y3 is not y2) and self.cmp(x3, y3)[0] == EQUAL:
                        r = (UNKNOWN, 'something empty: ' + r[1], r[2], r[3])
                if r[0] == DIFF and self.other_length(v):
                    r = (UNKNOWN, 'gate on the length of another list: ' + show(v, 4)[:160], x, y)
                if r[0] == DIFF:
                    if self.uncertain(v, self.ss if v in self.sc else self.sc) and \
                            (v not in self.ss or v not in self.sc):
                        r = (UNKNOWN, 'gate ' + show(v, 4)[:160], x, y)
                    else:
                        return (DIFF, 'when %s%s: %s' % (w, show(v, 4)[:160], r[1]), r[2], r[3])
                rs.append(r)
            for r in rs:
                if r[0] == UNKNOWN:
                    return r
            return (EQUAL, '', None, None)
        if s.op == 'mu' and s.args[0].op == 'inf' and c.op != 'mu' and not NOFOLD:
            r = self.twice(c, s)
            if r is not None:
                return r
        if c.op == 'poly' or s.op == 'poly' or (c.op == 'num') != (s.op == 'num'):
            return self.cmp_poly(c, s)
        if c.op == 'mu' and s.op == 'mu' and not NOFOLD:
            # loops that could not be aligned: a difference inside is no difference of the results yet
            r = self.cmp_args(c, s)
            if r[0] != EQUAL:
                r2 = self.cmp(c.args[2], s.args[2])
                if r2[0] == DIFF and c.args[2].op == 'mu' and s.args[2].op == 'mu':
                    return r2
                own = [[x for x in subterms(y.args[3], dict(subterms(y.args[1]))) if x.op == 'ph' and x.args[0].args[0] is y.args[2]]
                       for y in (c, s)]
                if r[0] == UNKNOWN and r2[0] == EQUAL and c.args[0] is s.args[0] and len(own[0]) == len(own[1]) == 1:
                    # the same start: compare one pass, from the same value
                    v = mk('sym', 'carried%d.%d' % (c.id, s.id))
                    for i in (1, 3):
                        x, y = subst(c.args[i], {own[0][0]: v}), subst(s.args[i], {own[1][0]: v})
                        if not any(z.op == 'ph' for z in subterms(x, dict(subterms(y)))):
                            r3 = self.cmp(x, y)
                            if r3[0] == DIFF:
                                return r3
            if r[0] == DIFF and 'inf' in (c.args[0].op, s.args[0].op) and self.cmp(c.args[3], s.args[3])[0] != EQUAL and (
                    c.args[0] is not s.args[0] or self.cmp(c.args[2], s.args[2])[0] != EQUAL):
                return (UNKNOWN, 'shape of loops: ' + r[1], r[2], r[3])
            return r
        if c.op == 'dict' and s.op == 'dict' and c.args[::2] != s.args[::2] and all(isconst(k) for k in c.args[::2]) and set(c.args[::2]) == set(s.args[::2]) and len(c.args) == len(s.args):
            # the order of the entries of a mapping is no difference
            m = dict(zip(s.args[::2], s.args[1::2]))
            return self.cmp(c, mk('dict', *[y for k in c.args[::2] for y in (k, m[k])]))
        if c.op == s.op and c.op in BINDERS and len(c.args) == len(s.args) and c.args[-1] != s.args[-1] \
                and isinstance(c.args[-1], int) and isinstance(s.args[-1], int):
            # one name for the bound variables
            v = mk('sym', 'bound%d.%d' % (c.args[-1], s.args[-1]))
            bc, bs = {mk('bv', c.args[-1]): v}, {mk('bv', s.args[-1]): v}
            ch = [self.cmp(x if x.op == 'mu' else subst(x, bc), y if y.op == 'mu' else subst(y, bs)) if isinstance(x, T) else (EQUAL, '', None, None)
                  for x, y in zip(c.args[:-1], s.args[:-1])]
            for st in (DIFF, UNKNOWN):
                for r in ch:
                    if r[0] == st:
                        return r
            return (EQUAL, '', None, None)
        return self.cmp_args(c, s)

    def same_call(self, v):
        """a call that may fail, on one side only: the calls of this name on the other side, if they all differ"""
        def ev(x):
            x = x.args[0]
            return x.args[0] if x.op == 'exof' and x.args and isinstance(x.args[0], T) and x.args[0].op == 'ev' else None
        e = ev(v)
        if e is None:
            return None
        here = self.sc if v in self.sc else self.ss
        there = self.ss if v in self.sc else self.sc
        other = [y for y in (ev(x) for x in there if x.op == 'raises' and x not in here) if y is not None
                 and y.args[0] == e.args[0] and len(y.args) == len(e.args)]
        mine = [y for y in (ev(x) for x in here if x.op == 'raises' and x not in there) if y is not None and y.args[0] == e.args[0]]
        if not other or len(other) != len(mine):
            return None
        r = None
        for y in other:
            r = self.cmp(e, y) if v in self.sc else self.cmp(y, e)
            if r[0] != DIFF:
                return None
        return (DIFF, 'call of %s: %s' % (e.args[0], r[1]), r[2], r[3])

    def twice(self, c, s):
        """no loop where the reference has one that goes on while its value is beyond a limit, changing it by the same
        amount each time: compare with the result after two rounds"""
        own, seen, todo = [], set(), [s.args[1], s.args[3]]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                if x.op == 'ph':
                    own.append(x)
                else:
                    todo.extend(children(x))
        if len(own) != 1 or own[0].args[0].args[0] is not s.args[2]:
            return None
        if any(x.op in LOOPY and x not in self.ss for x in subterms(c)):
            return None
        ph, stop, body = own[0], s.args[1], s.args[3]
        if stop.op != 'ite' or stop.args[0].op != 'cmp' or {show(x) for x in stop.args[1:]} != {'run', 'brk'}:
            return None
        go = show(stop.args[1]) == 'run'
        step = sub(cof(body, stop.args[0])[0 if go else 1], ph)
        if step is ZERO or any(x.op == 'ph' for x in subterms(step)) or step.op not in ('poly', 'num') or s.args[2].op == 'ite':
            return None
        x, conds = s.args[2], []
        for i in range(3):
            g = subst(stop, {ph: x})
            if g.op != 'ite' or g.args[0].op != 'cmp':
                return None
            conds.append((g.args[0], (show(g.args[1]) == 'run') == (i < 2)))
            if i < 2:
                x = add(x, step)
        y = c
        for a, v in conds:
            y, x = assume(y, a, v), assume(x, a, v)
        r = self.cmp(y, x)
        if r[0] == DIFF:
            return (DIFF, 'after two rounds of the loop: ' + r[1], r[2], r[3])
        return None

    def other_length(self, v):
        """a condition on the length of a list built in a loop, where the other side has the same condition on another
        such list: they may well be built in step"""
        if (v in self.ss) == (v in self.sc):
            return False

        def blur(a):
            m = {x: mk('sym', 'length') for x in subterms(a) if x.op == 'len' and x.args[0].op == 'ph'}
            return subst(a, m) if m else None
        b = blur(v)
        if b is None:
            return False
        return any(a.op == v.op and a is not v and blur(a) is b for a in (self.ss if v in self.sc else self.sc))

    def cmp_args(self, c, s):
        if c.op == s.op and len(c.args) == len(s.args) and c.args:
            ch = []
            for x, y in zip(c.args, s.args):
                if isinstance(x, T) and isinstance(y, T):
                    ch.append(self.cmp(x, y))
                elif x != y:
                    if isinstance(x, int) and c.op in BINDERS:
                        continue
                    ch.append((DIFF, '', c, s))
            d = [r for r in ch if r[0] == DIFF]
            u = [r for r in ch if r[0] == UNKNOWN]
            if d and (c.op in INJ or not u):
                r = d[0]
                return (DIFF, r[1], r[2] or c, r[3] or s)
            if u:
                return u[0]
            return (EQUAL, '', None, None)
        return self.mismatch(c, s)

    def mismatch(self, c, s):
        if {c.op, s.op} == {'cell', 'list'}:
            # a list that is filled against one that is replaced
            return (UNKNOWN, 'shape', c, s)
        if (c.op == 'kw') != (s.op == 'kw') and self.cmp(*[x.args[1] if x.op == 'kw' else x for x in (c, s)])[0] == EQUAL:
            # an argument given by position or by name
            return (UNKNOWN, 'shape', c, s)
        if self.uncertain(c, self.ss):
            return (UNKNOWN, 'shape', c, s)
        if self.uncertain(s, self.sc) and not (c.op in TRACE and s.op in TRACE):
            return (UNKNOWN, 'shape', c, s)
        return (DIFF, '', c, s)

    def signs(self, v, val):
        m = {}
        for a in {**self.sc, **self.ss}:
            if a.op != 'abs':
                continue
            for g, sg in ((lt(ZERO, a.args[0]), 1), (lt(a.args[0], ZERO), -1)):
                if g.op == 'ite' and g.args[1:] in ((TRUE, FALSE), (FALSE, TRUE)):
                    d = decide(g.args[0], v, val)
                    if d is not None:
                        m[a] = a.args[0] if (d == (g.args[1] is TRUE)) == (sg > 0) else neg(a.args[0])
                        break
        return m

    def normal_pair(self, c, s):
        """forms that are not brought to one form on construction: the square of a modulus, an array filled with a value"""
        pc, ps = poly_of(c), poly_of(s)
        atoms = {a for p in (pc, ps) for m in p for a, e in m}
        ops = {a.op for a in atoms}
        if ops & {'real', 'imag'} and 'abs' in ops:
            def modulus(p):
                r = ZERO
                for m, k in p.items():
                    t = num(k)
                    for a, e in m:
                        if a.op == 'abs' and e == 2:
                            x, y = app('real', a.args[0]), app('imag', a.args[0])
                            t = mul(t, add(mul(x, x), mul(y, y)))
                        else:
                            t = mul(t, power(a, e))
                    r = add(r, t)
                return r
            return modulus(pc), modulus(ps)
        unit = [a for a in atoms if a.op == 'full' and a.args[1] is ONE]
        if unit:
            m = {}
            for u in unit:
                o = mk('sym', 'ones%d' % u.id)
                for a in atoms:
                    if a.op == 'full' and a.args[0] is u.args[0] and a.args[2:] == u.args[2:] and a.args[1].op in ('num', 'poly', 'attr'):
                        m[a] = mul(a.args[1], o)
            if m:
                return subst(c, m), subst(s, m)
        return c, s

    def cmp_poly(self, c, s):
        c2, s2 = self.normal_pair(c, s)
        if c2 is s2:
            return (EQUAL, '', None, None)
        pc, ps = poly_of(c), poly_of(s)
        ac = {a for m in pc for a, e in m}
        as_ = {a for m in ps for a, e in m}
        oc = sorted(ac - as_, key=lambda t: t.id)
        os_ = sorted(as_ - ac, key=lambda t: t.id)
        if any(a.op == 'pgrp' for a in ac | as_):
            # quotients: compare over a common denominator
            d = sub(c, s)
            d = clear_denominators(d) if d.op != 'ite' else None
            if d is ZERO:
                return (EQUAL, '', None, None)
            oc = [a for a in oc if a.op != 'pgrp']
            os_ = [a for a in os_ if a.op != 'pgrp']
            na = {x for a in ac if a.op == 'pgrp' for x in children(a)} | {x for a in ac if a.op == 'pgrp' for x in children(a.args[0])}
            nb = {x for a in as_ if a.op == 'pgrp' for x in children(a)} | {x for a in as_ if a.op == 'pgrp' for x in children(a.args[0])}
            oc = sorted(set(oc) | {x for x in na - nb - as_ if x.op not in ('poly', 'pgrp')}, key=lambda t: t.id)
            os_ = sorted(set(os_) | {x for x in nb - na - ac if x.op not in ('poly', 'pgrp')}, key=lambda t: t.id)
        if not oc and not os_:
            return (DIFF, '', c, s)
        if len(oc) == 1 and len(os_) == 1:
            r = self.cmp(oc[0], os_[0])
            if r[0] == EQUAL:
                return (UNKNOWN, 'shape', c, s)
            return r
        if len(oc) == len(os_):
            left = list(os_)
            worst = None
            for x in oc:
                best = None
                for y in left:
                    if x.op == y.op:
                        r = self.cmp(x, y)
                        if r[0] == DIFF:
                            best = (y, r)
                            break
                if best is None:
                    break
                left.remove(best[0])
                worst = worst or best[1]
            else:
                return worst
        for x in oc:
            if self.uncertain(x, self.ss):
                return (UNKNOWN, 'shape', c, s)
        for x in os_:
            if self.uncertain(x, self.sc):
                return (UNKNOWN, 'shape', c, s)
        return (DIFF, '', c, s)


_pairs = {}


def pair_loops(x, y, regc, regs, depth):
    """x, y: (loop record, substitution, uses)"""
    key = (id(x[0]), tuple(sorted((a.id, b.id) for a, b in x[1].items())), id(y[0]),
           tuple(sorted((a.id, b.id) for a, b in y[1].items())), depth, frozenset(x[2]), frozenset(y[2]))
    if key in _pairs:
        return _pairs[key][:2]

    def cmpfn(a, b, ma, mb):
        if a is b:
            return (EQUAL, '', None, None)
        return Comparer(a, b, inner(x[0], x[1], p.ta, ma), inner(y[0], y[1], p.tb, mb), depth + 1).run()

    sa, sb = loops.Sys(x[0], x[1]), loops.Sys(y[0], y[1])
    p = loops.Pair(sa, sb, cmpfn, depth, [sa.k2(k) for m, k in x[2]], [sb.k2(k) for m, k in y[2]])
    v = p.run()
    _pairs[key] = (p, v, x, y)
    return p, v


_inner = {}


def inner(rec, m0, mt, m1):
    """registry of the loops inside a loop body, under the renaming of the outer placeholders"""
    key = (id(rec), frozenset(m0.items()), frozenset(mt.items()), frozenset(m1.items()))
    r = _inner.get(key)
    if r is None:
        r = {}
        mus = set()
        for ph, init, body in rec.vars.values():
            for t in (init, body):
                mus |= {x for x in subterms(t) if x.op == 'mu' and x in loops.LOOPS}
        for x in mus:
            irec, k = loops.LOOPS[x]
            comp = [m for m in (m0, mt, m1) if m]
            y = x
            for m in comp:
                y = subst(y, m)
            tot = Compose(comp)
            r[y] = (irec, k, tot)
        _inner[key] = r
    return r


class Compose(dict):
    """substitutions applied one after the other, seen as one mapping on the terms that occur"""
    def __init__(self, ms):
        d = {}
        for m in ms:
            for k in d:
                d[k] = subst(d[k], m)
            for k, v in m.items():
                d.setdefault(k, v)
        dict.__init__(self, d)


def compare(c, s):
    return Comparer(c, s).run()


def depends_on(t, pred):
    return [x for x in subterms(t) if pred(x)]
