"""Hash-consed value-numbering domain.

Values are terms in a normal form:
  * arithmetic: sums of monomials with rational coefficients (rational functions
    through negative exponents), so algebraically equal expressions get one number;
  * conditions: reduced ordered decision diagrams over normalised comparison atoms;
  * conditional values: the same diagrams with value leaves (gated SSA);
  * containers: list / store / map / tab / sum forms;
  * loops: see interp.py.
Two expressions with the same normal form are equal for every input.
"""
from fractions import Fraction
import itertools
import math
import re
import time

F0 = Fraction(0)
F1 = Fraction(1)


class T:
    __slots__ = ('op', 'args', 'id', 'bh', 'tv', 'nl', 'bl', 'ci')

    def __repr__(self):
        return show(self)


TAB = {}
LIMIT = 400


class Budget(Exception):
    """the analysis of one obligation takes too long or too much memory: it stays undecided"""


DEADLINE = [None]
TICKS = [0]


def set_budget(seconds):
    DEADLINE[0] = None if seconds is None else time.monotonic() + seconds


def tick():
    TICKS[0] += 1
    if not TICKS[0] & 255 and DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
        raise Budget('time limit of the analysis')


def mk(op, *args):
    k = (op, args)
    t = TAB.get(k)
    if t is not None:
        return t
    tick()
    t = T()
    t.op = op
    t.args = args
    t.id = len(TAB)
    bh = 0
    tv = False
    ci = op == 'ite' or op == 'pos'
    if op == 'bv':
        bh = args[0]
    elif op == 'tv':
        tv = True
    for c in children(t):
        if c.bh > bh:
            bh = c.bh
        if c.tv:
            tv = True
        if c.ci:
            ci = True
    t.bh = bh
    t.tv = tv
    t.ci = ci
    if op == 'ite':
        t.nl = args[1].nl + args[2].nl
        t.bl = args[1].bl and args[2].bl
    else:
        t.nl = 1
        t.bl = op in ('true', 'false')
    TAB[k] = t
    return t


def children(t):
    if t.op == 'poly':
        for c, m in t.args:
            for a, e in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


TRUE = mk('true')
FALSE = mk('false')
NONE = mk('none')
PI = mk('sym', 'PI')
IMAG = mk('sym', 'I')
UNDEF = mk('undef')
FULL = mk('slice', NONE, NONE, NONE)


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Fraction):
        return mk('num', x)
    if isinstance(x, int):
        return mk('num', Fraction(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return mk('sym', repr(x))
        return mk('num', Fraction(repr(x)))
    if isinstance(x, complex):
        return add(num(x.real), mul(num(x.imag), IMAG))
    raise TypeError(x)


ZERO = num(0)
ONE = num(1)
NEG1 = num(-1)


def string(s):
    return mk('str', s)


def sym(n):
    return mk('sym', n)


def unk(reason):
    return mk('unk', reason)


def isnum(t, v=None):
    return t.op == 'num' and (v is None or t.args[0] == v)


def isconst(t):
    return t.op in ('num', 'str', 'none', 'true', 'false', 'enum', 'bytes')


# ---------------------------------------------------------------- polynomials

def poly_of(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return {m: c for c, m in t.args}
    if t is TRUE:
        return {(): F1}
    if t is FALSE:
        return {}
    return {((t, 1),): F1}


def mkey(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def of_poly(d):
    tick()
    items = [(c, m) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        c, m = items[0]
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(items) > 1:
        # zero filled arrays are neutral in a sum
        z = [it for it in items if len(it[1]) == 1 and it[1][0][1] == 1 and filled(it[1][0][0], ZERO)]
        if z and len(z) < len(items):
            for it in z:
                items.remove(it)
            return of_poly({m: c for c, m in items})
    items.sort(key=lambda x: mkey(x[1]))
    return mk('poly', *items)


def filled(t, v):
    """an array filled with v or a part of one"""
    if t.op == 'select':
        t = t.args[0]
    return t.op == 'full' and t.args[1] is v


def lift2(f, a, b):
    """lift a binary operation over conditional operands"""
    tick()
    if a.op != 'ite' and b.op != 'ite':
        return f(a, b)
    if a.nl * b.nl > LIMIT:
        return f(a, b)
    memo = {}

    def rec(x, y):
        k = (x, y)
        r = memo.get(k)
        if r is not None:
            return r
        if x.op != 'ite' and y.op != 'ite':
            r = f(x, y)
        else:
            v = top(x, y)
            x1, x0 = cof(x, v)
            y1, y0 = cof(y, v)
            r = node_any(v, rec(x1, y1), rec(x0, y0))
        memo[k] = r
        return r
    return rec(a, b)


def lift1(f, a):
    if a.op != 'ite' or a.nl > LIMIT:
        return f(a)
    return node_any(a.args[0], lift1(f, a.args[1]), lift1(f, a.args[2]))


def liftn(f, args):
    args = list(args)
    p = 1
    for a in args:
        p *= a.nl
    if p == 1 or p > LIMIT:
        return f(*args)
    memo = {}

    def rec(xs):
        r = memo.get(xs)
        if r is not None:
            return r
        ites = [x for x in xs if x.op == 'ite']
        if not ites:
            r = f(*xs)
        else:
            v = top(*ites)
            r = node_any(v, rec(tuple(cof(x, v)[0] for x in xs)), rec(tuple(cof(x, v)[1] for x in xs)))
        memo[xs] = r
        return r
    return rec(tuple(args))


def add(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = lift2(_add, r, t)
    return r


def _add(a, b):
    if a is ZERO:
        return b if b not in (TRUE, FALSE) else of_poly(poly_of(b))
    if b is ZERO:
        return a if a not in (TRUE, FALSE) else of_poly(poly_of(a))
    d = dict(poly_of(a))
    for m, c in poly_of(b).items():
        c2 = d.get(m, F0) + c
        if c2 == 0:
            d.pop(m, None)
        else:
            d[m] = c2
    return of_poly(d)


def neg(a):
    return lift1(lambda x: of_poly({m: -c for m, c in poly_of(x).items()}), a)


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    """-> (coef, mono, pending) pending: list of (term, exp>0) to be multiplied in"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return mono_norm(d)


def mono_norm(d):
    coef = F1
    pend = []
    exparg = None
    powarg = {}
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a is IMAG:
            e %= 4
            if e >= 2:
                coef = -coef
                e -= 2
            if e:
                out[a] = 1
        elif a.op == 'exp':
            x = mul(num(e), a.args[0])
            exparg = x if exparg is None else add(exparg, x)
        elif a.op == 'pow' and a.args[0].op == 'num' and a.args[0].args[0] > 0:
            x = mul(num(e), a.args[1])
            powarg[a.args[0]] = add(powarg[a.args[0]], x) if a.args[0] in powarg else x
        elif a.op == 'sqrt':
            q, r = divmod(e, 2)
            if r:
                out[a] = 1
            if q:
                pend.append((a.args[0], q))
        elif a.op == 'pgrp' and e > 0:
            pend.append((a.args[0], e))
        else:
            out[a] = e
    for b, x in powarg.items():
        x = app('pow', b, x)
        if x.op == 'pow':
            out[x] = 1
        elif x is not ONE:
            pend.append((x, 1))
    ones = [a for a, e in out.items() if filled(a, ONE)]
    for a in ones:
        nd = ndim(a)
        if any(b is not a and b not in ones and ndim(b) == nd for b in out):
            del out[a]
    if exparg is not None and exparg is not ZERO:
        x = mk('exp', exparg) if exparg.op != 'ite' else app('exp', exparg)
        if x.op == 'exp':
            out[x] = 1
        else:
            pend.append((x, 1))
    m = tuple(sorted(out.items(), key=lambda x: x[0].id))
    return coef, m, pend


def ndim(t):
    """number of array dimensions, None if not certain"""
    if t.op == 'full':
        return len(t.args[0].args) if t.args[0].op in ('tuple', 'list') else 1
    if t.op in ('store', 'tab'):
        return ndim(t.args[0])
    if t.op == 'mu':
        return ndim(t.args[2]) if isinstance(t.args[2], T) else None
    if t.op == 'ph':
        c = t.args[0]
        return ndim(c.args[0]) if isinstance(c.args[0], T) else None
    if t.op == 'map':
        return 1
    if t.op == 'select':
        n = ndim(t.args[0])
        if n is None:
            return None
        for p in t.args[1].args:
            if p.op == 'slice':
                continue
            if p.op in ('none', 'newaxis'):
                n += 1
            elif scalar(p) or is_int(p):
                n -= 1
            else:
                return None
        return n
    if t.op == 'ite':
        a, b = ndim(t.args[1]), ndim(t.args[2])
        return a if a == b else None
    return None


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = lift2(_mul, r, t)
    return r


def _mul(a, b):
    if a is ONE and b not in (TRUE, FALSE):
        return b
    if b is ONE and a not in (TRUE, FALSE):
        return a
    if a is ZERO or b is ZERO or a is FALSE or b is FALSE:
        return ZERO
    if a.op == 'full' and b.op == 'full' and a.args[0] is b.args[0]:
        return app('full', a.args[0], mul(a.args[1], b.args[1]), *a.args[2:])
    for x, y in ((a, b), (b, a)):
        if x.op == 'full' and scalar(y):
            return app('full', x.args[0], mul(x.args[1], y), *x.args[2:])
    pa, pb = poly_of(a), poly_of(b)
    if len(pa) * len(pb) > 400:
        return mk('bigmul', *sorted((a, b), key=lambda t: t.id))
    d = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            c, m, pend = mono_mul(m1, m2)
            c = c * c1 * c2
            if pend:
                extra.append((c, m, pend))
            else:
                d[m] = d.get(m, F0) + c
    r = of_poly(d)
    for c, m, pend in extra:
        t = of_poly({m: c})
        for x, e in pend:
            t = mul(t, power(x, e))
        r = add(r, t)
    return r


def scalar(t):
    """certainly a scalar number"""
    if t.op in ('num', 'true', 'false', 'len', 'bv', 'tv'):
        return True
    if t is PI:
        return True
    return False


def power(a, n):
    """integer power"""
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, power(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def div(a, b):
    return lift2(_div, a, b)


def _div(a, b):
    if b.op == 'num':
        if b.args[0] == 0:
            return mk('divzero', a)
        k = 1 / b.args[0]
        if a.op == 'full':
            return app('full', a.args[0], mul(a.args[1], num(k)), *a.args[2:])
        return of_poly({m: c * k for m, c in poly_of(a).items()})
    if a is ZERO:
        return ZERO
    pb = poly_of(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        coef, m2, pend = mono_norm({x: -e for x, e in m})
        inv = of_poly({m2: coef / c})
        for x, e in pend:
            inv = mul(inv, power(x, e))
        return _mul(a, inv) if inv.op != 'ite' else mul(a, inv)
    # multi term denominator: make it primitive
    pa = poly_of(a)
    lead = min(pb, key=mkey)
    lc = pb[lead]
    if set(pa) == set(pb):
        k = pa[lead] / lc
        if all(pa[m] == k * pb[m] for m in pb):
            return num(k)
    g = of_poly({m: c / lc for m, c in pb.items()})
    if g.op != 'poly':
        return div(a, mul(num(lc), g))
    inv = of_poly({((mk('pgrp', g), -1),): 1 / lc})
    return _mul(a, inv)


def is_int(t):
    op = t.op
    if op == 'num':
        return t.args[0].denominator == 1
    if op in ('bv', 'tv', 'len', 'int', 'floordiv_i', 'true', 'false', 'count', 'argmin', 'argmax'):
        return True
    if op == 'poly':
        return all(c.denominator == 1 and all(e > 0 and is_int(a) for a, e in m) for c, m in t.args)
    if op in ('min', 'max', 'pos'):
        return all(is_int(x) for x in t.args)
    if op == 'floordiv':
        return is_int(t.args[0]) and is_int(t.args[1])
    if op == 'attr':
        return t.args[1] in INT_ATTRS
    if op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if op == 'ph':
        return is_int(t.args[1])
    if op == 'sum':
        return is_int(t.args[1])
    return False


INT_ATTRS = {'n_looks_stack', 'n_samples_sar', 'n_ku_pulses_burst', 'zp_fact_range', 'data_stack_size',
             'min_surfs', 'surfaces_count', 'n_bursts_cycle_sar'}


def nonneg(t):
    if t.op in ('len', 'bv', 'tv', 'abs', 'sqrt', 'norm', 'count', 'exp', 'pos'):
        return True
    if t.op == 'poly':
        if all(c > 0 and all(nonneg(a) for a, e in m) for c, m in t.args):
            return True
        for c, m in t.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'pos' and abs(c) == 1:
                d = dict(poly_of(t))
                del d[m]
                r = of_poly(d)
                q = _add(r, m[0][0].args[0]) if c > 0 else _add(r, neg(m[0][0].args[0]))
                if r.op == 'poly' and any(a.op == 'pos' for _, mm in r.args for a, _e in mm):
                    return False
                return (nonneg(r) or nonneg(q)) if c > 0 else (nonneg(r) and nonneg(q))
        return False
    if t.op == 'attr' and t.args[1] in INT_ATTRS:
        return True
    if t.op in ('min', 'max'):
        return all(nonneg(x) for x in t.args)
    if t.op == 'num':
        return t.args[0] >= 0
    return False


# ---------------------------------------------------------------- conditions

def split_lin(p):
    """polynomial -> (L with leading coefficient 1 and no constant, scale, const): p = scale*L + const"""
    d = dict(poly_of(p))
    c0 = d.pop((), F0)
    if not d:
        return None, None, c0
    lead = max(d, key=mkey)
    a = d[lead]
    return of_poly({m: c / a for m, c in d.items()}), a, c0


def atom(t):
    return node(t, TRUE, FALSE)


def gt0(p):
    return lift1(_gt0, p)


def _gt0(p):
    L, a, c0 = split_lin(p)
    if L is None:
        return TRUE if c0 > 0 else FALSE
    k = -c0 / a
    return cmp_atom(L, 'gt' if a > 0 else 'lt', k)


def cmp_atom(L, kind, k):
    if is_int(L):
        if kind == 'gt':
            k = Fraction(math.floor(k))
        elif kind == 'lt':
            return bnot(cmp_atom(L, 'gt', Fraction(math.ceil(k) - 1)))
        elif kind == 'eq' and k.denominator != 1:
            return FALSE
        if nonneg(L):
            if kind == 'gt' and k < 0:
                return TRUE
            if kind == 'eq' and k < 0:
                return FALSE
            if kind == 'eq' and k == 0:
                return bnot(cmp_atom(L, 'gt', F0))
    elif nonneg(L):
        if kind == 'gt' and k < 0:
            return TRUE
        if kind == 'lt' and k <= 0:
            return FALSE
        if kind == 'eq' and k < 0:
            return FALSE
    if kind == 'gt' and k == 0 and L.op == 'len':
        return atom(mk('truth', L.args[0]))
    return atom(mk('cmp', L, kind, k))


def clear_denominators(t):
    """t times all sums it is divided by; the result is free of inverses of sums"""
    for _ in range(12):
        d = poly_of(t)
        low = {}
        for m in d:
            for a, e in m:
                if a.op == 'pgrp' and e < 0:
                    low[a] = min(low.get(a, 0), e)
        if not low or len(d) > 400:
            return t
        g = min(low, key=lambda x: x.id)
        k = -low[g]
        ps = [ONE]
        for _i in range(k):
            ps.append(mul(ps[-1], g.args[0]))
        r = ZERO
        for m, c in d.items():
            e = dict(m).get(g, 0)
            rest = of_poly({tuple((a, x) for a, x in m if a is not g): c})
            r = add(r, mul(rest, ps[k + e]))
        t = r
        if t.op == 'ite':
            return None
    return t


def lt(a, b):
    return lift2(lambda x, y: _gt0(_add(y, neg(x))), a, b)


def eq(a, b):
    return lift2(_eq, a, b)


NUMERIC_OPS = {'num', 'poly', 'len', 'sum', 'bv', 'tv', 'cos', 'sin', 'sqrt', 'exp', 'abs', 'norm', 'log10',
               'floordiv', 'mod', 'min', 'max', 'pos', 'int', 'round', 'mean'}
STRUCT_OPS = {'list', 'tuple', 'dict', 'cat', 'append', 'concat', 'map', 'fmap', 'str', 'join', 'new'}


def numeric(t):
    return t.op in NUMERIC_OPS


def _eq(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        if {a.op, b.op} <= {'num', 'true', 'false'}:
            return TRUE if poly_of(a) == poly_of(b) else FALSE
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y is TRUE and not numeric(x):
            return truth(x)
        if y is FALSE and not numeric(x) and x.bl:
            return bnot(truth(x))
    if a.op in ('list', 'tuple') and b.op in ('list', 'tuple') and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = band(r, eq(x, y))
        return r
    if a.op in ('none', 'str', 'enum', 'true', 'false', 'bytes'):
        a, b = b, a
    if b.op in ('none', 'str', 'enum', 'true', 'false', 'bytes'):
        if b.op == 'none' and (a.op in NUMERIC_OPS or a.op in STRUCT_OPS or a.op in ('full', 'store', 'tab')):
            return FALSE
        return atom(mk('eq', a, b))
    if a.op in STRUCT_OPS or b.op in STRUCT_OPS:
        if a.id > b.id:
            a, b = b, a
        return atom(mk('eq', a, b))
    L, s, c0 = split_lin(_add(a, neg(b)))
    if L is None:
        return TRUE if c0 == 0 else FALSE
    return cmp_atom(L, 'eq', -c0 / s)


def truth(t):
    op = t.op
    if t.bl:
        return t
    if op == 'ite':
        return node_any(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if op == 'num':
        return FALSE if t.args[0] == 0 else TRUE
    if op in ('str', 'bytes'):
        return TRUE if len(t.args[0]) else FALSE
    if op == 'none':
        return FALSE
    if op in ('list', 'tuple', 'dict', 'set'):
        return TRUE if t.args else FALSE
    if op in ('append',):
        return TRUE
    if op == 'cat' and any(a.op == 'str' and a.args[0] for a in t.args):
        return TRUE
    if op in ('enum', 'new', 'bound', 'func', 'class'):
        return TRUE
    if op == 'fmap':
        return atom(mk('any', t.args[0], t.args[1], t.args[3])) if t.args[1] is not TRUE else truth(t.args[0])
    if op == 'len' or op in NUMERIC_OPS:
        return bnot(eq(t, ZERO))
    return atom(mk('truth', t))


def interval(kind, k, val):
    """set of L as (lo, lo_incl, hi, hi_incl) or None"""
    if kind == 'gt':
        return (k, False, None, False) if val else (None, False, k, True)
    if kind == 'lt':
        return (None, False, k, False) if val else (k, True, None, False)
    if kind == 'eq' and val:
        return (k, True, k, True)
    return None


def decide(a, v, val):
    """truth of atom a given atom v == val; None if open"""
    if a is v:
        return val
    if a.op == 'cmp' and v.op == 'cmp' and a.args[0] is v.args[0]:
        I = interval(v.args[1], v.args[2], val)
        if I is None:
            return None
        lo, li, hi, hi_i = I
        kind, k = a.args[1], a.args[2]
        isint = is_int(a.args[0])
        if isint and lo is not None and not li:
            lo, li = lo + 1, True
        if kind == 'gt':
            if lo is not None and (lo > k or (lo == k and not li)):
                return True
            if hi is not None and hi <= k:
                return False
        elif kind == 'lt':
            if hi is not None and (hi < k or (hi == k and not hi_i)):
                return True
            if lo is not None and lo >= k:
                return False
        else:
            if lo is not None and (lo > k or (lo == k and not li)):
                return False
            if hi is not None and (hi < k or (hi == k and not hi_i)):
                return False
            if lo is not None and lo == hi == k:
                return True
        return None
    if a.op == 'eq' and v.op == 'eq' and val and a.args[0] is v.args[0] and isconst(a.args[1]) and isconst(v.args[1]):
        return a.args[1] is v.args[1]
    if a.op == 'eq' and v.op == 'truth' and a.args[0] is v.args[0]:
        if a.args[1] is NONE and val:
            return False
        return None
    if a.op == 'truth' and v.op == 'eq' and a.args[0] is v.args[0] and val and v.args[1] is NONE:
        return False
    if a.op == 'truth' and v.op == 'eq' and a.args[0] is v.args[0] and val and isconst(v.args[1]):
        r = truth(v.args[1])
        return True if r is TRUE else False if r is FALSE else None
    # length facts
    la = a.args[0].args[0] if a.op == 'cmp' and a.args[0].op == 'len' else a.args[0] if a.op == 'truth' else None
    lv = v.args[0].args[0] if v.op == 'cmp' and v.args[0].op == 'len' else v.args[0] if v.op == 'truth' else None
    if la is not None and la is lv:
        if v.op == 'truth' and a.op == 'cmp':
            if not val:
                if a.args[1] == 'gt' and a.args[2] >= 0:
                    return False
                if a.args[1] == 'eq':
                    return a.args[2] == 0
            return None
        if v.op == 'cmp' and a.op == 'truth':
            if val and v.args[1] == 'gt' and v.args[2] >= 0:
                return True
            if val and v.args[1] == 'eq':
                return v.args[2] != 0
    if a.op == 'truth' and v.op == 'truth' and val and a.args[0].op == 'ret' and v.args[0].op == 'ret' \
            and a.args[0].args[1:] == v.args[0].args[1:]:
        # what lies in a directory exists only if the directory does
        ea, ev = a.args[0].args[0], v.args[0].args[0]
        if ea.args[0] == 'exists' and ev.args[0] in ('exists', 'isdir', 'isfile') and len(ea.args) == len(ev.args) == 2:
            if ev.args[1] is ea.args[1]:
                return True
            pa = ea.args[1].args if ea.args[1].op == 'join' else (ea.args[1],)
            if pa[-1].op == 'str' and pa[-1].args[0] == '':
                pa = pa[:-1]
            if ev.args[1].op == 'join' and ev.args[1].args[:len(pa)] == pa:
                return True
    # raised / exception class of the same operation
    if v.op == 'raises' and a.op == 'isexc':
        pass
    return None


_assume = {}


def assume(t, v, val):
    if not t.ci or t.op == 'ph' or t.op == 'col':
        return t
    k = (t, v, val)
    r = _assume.get(k)
    if r is not None:
        return r
    if t.op != 'ite':
        r = rebuild(t, lambda x: assume(x, v, val))
        if r.op == 'pos' and v.op == 'cmp' and r.args[0].op == 'poly':
            # max(x, 0) where the sign of x is known
            d = None
            for g, sg in ((lt(ZERO, r.args[0]), True), (lt(r.args[0], ZERO), False)):
                if g.op == 'ite' and g.args[1:] in ((TRUE, FALSE), (FALSE, TRUE)) and d is None:
                    d = decide(g.args[0], v, val)
                    if d is not None:
                        d = (d == (g.args[1] is TRUE)) == sg
            r = r if d is None else r.args[0] if d else ZERO
        _assume[k] = r
        return r
    a, hi, lo = t.args
    d = decide(a, v, val)
    if d is True:
        r = assume(hi, v, val)
    elif d is False:
        r = assume(lo, v, val)
    else:
        h2, l2 = assume(hi, v, val), assume(lo, v, val)
        a2 = assume(a, v, val) if a.op in ('raises', 'isexc') and a.ci else a
        if a2 is not a and a2.op == a.op:
            # what has happened before a failure, narrowed to this case
            r = ite(mk('ite', a2, TRUE, FALSE), h2, l2)
        else:
            r = t if (h2 is hi and l2 is lo) else node_any(a, h2, l2)
    _assume[k] = r
    return r


def rebuild(t, f):
    """t with f applied to its children"""
    op = t.op
    if op == 'poly':
        ch = {}
        for c, mono in t.args:
            for a, e in mono:
                ch[a] = f(a)
        if all(x is y for x, y in ch.items()):
            return t
        r = ZERO
        for c, mono in t.args:
            x = num(c)
            for a, e in mono:
                y = ch[a]
                x = mul(x, power(y, e) if e > 0 else div(ONE, power(y, -e)))
            r = add(r, x)
        return r
    if op == 'pgrp':
        return f(t.args[0])
    new = [f(a) if isinstance(a, T) else a for a in t.args]
    if all(x is y for x, y in zip(new, t.args)):
        return t
    return app(op, *new)


def node(v, hi, lo):
    """decision node; v precedes every atom of hi and lo in the order"""
    if hi is lo:
        return hi
    h2 = assume(hi, v, True)
    l2 = assume(lo, v, False)
    if (h2 is not hi or l2 is not lo):
        return node_any(v, h2, l2)
    if hi.op != 'ite' and lo.op != 'ite':
        r = leaf_rule(v, hi, lo)
        if r is not None:
            return r
    return mk('ite', v, hi, lo)


def order_ok(v, t):
    return t.op != 'ite' or v.id < t.args[0].id


def node_any(v, hi, lo):
    """node where the operands may contain atoms that precede v"""
    hi = assume(hi, v, True)
    lo = assume(lo, v, False)
    if hi is lo:
        return hi
    if order_ok(v, hi) and order_ok(v, lo):
        return node(v, hi, lo)
    return ite(mk('ite', v, TRUE, FALSE), hi, lo)


NOFOLD = []      # not empty: maxima are spelled out as decisions


def unfold(ts, limit=8):
    """the terms with every pos(d) spelled out as a decision, or None if there are too many"""
    global _ite, _assume
    ps, seen = set(), set()
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'pos':
            ps.add(x)
        stack.extend(children(x))
    if not ps or len(ps) > limit:
        return None
    old = _ite, _assume
    _ite, _assume = {}, {}
    NOFOLD.append(1)
    try:
        m = {}
        for p in sorted(ps, key=lambda t: t.id):
            d = subst(p.args[0], m)
            m[p] = lift1(lambda x: ite(gt0(x), x, ZERO), d)
        return [subst(t, m) for t in ts]
    finally:
        NOFOLD.pop()
        _ite, _assume = old


def leaf_rule(v, hi, lo):
    # the value tested for equality, on both sides
    if v.op == 'eq' and ((hi is v.args[1] and lo is v.args[0]) or (hi is v.args[0] and lo is v.args[1])):
        return lo
    if v.op == 'cmp' and v.args[1] == 'eq' and hi.op == 'num' and numericish(lo) and lo.op != 'ite':
        L, a, c0 = split_lin(lo)
        if L is v.args[0] and a * v.args[2] + c0 == hi.args[0]:
            return lo
    # select minimum / maximum
    if v.op == 'cmp' and v.args[1] in ('gt', 'lt') and (numericish(hi) and numericish(lo)):
        d = _add(hi, neg(lo))
        if d.op != 'ite' and not NOFOLD:
            L, s, c0 = split_lin(d)
            if L is v.args[0] and -c0 / s == v.args[2]:
                up = (s > 0) == (v.args[1] == 'gt')
                return app('max' if up else 'min', hi, lo)
            if L is v.args[0] and is_int(L) and v.args[1] == 'gt' and -c0 / s == v.args[2] + 1:
                return app('max' if s > 0 else 'min', hi, lo)
    # conditional element update
    if hi.op == 'store' and lo.op == 'store' and hi.args[0] is lo.args[0] and hi.args[1] is lo.args[1]:
        return app('store', hi.args[0], hi.args[1], node_any(v, hi.args[2], lo.args[2]))
    if hi.op == 'store' and hi.args[0] is lo:
        return app('store', lo, hi.args[1], node_any(v, hi.args[2], app('select', lo, hi.args[1])))
    if lo.op == 'store' and lo.args[0] is hi:
        return app('store', hi, lo.args[1], node_any(v, app('select', hi, lo.args[1]), lo.args[2]))
    if hi.op in ('list', 'tuple') and lo.op == hi.op and len(hi.args) == len(lo.args) and hi.args:
        return mk(hi.op, *[node_any(v, x, y) for x, y in zip(hi.args, lo.args)])
    if hi.op == 'dict' and lo.op == 'dict' and hi.args[::2] == lo.args[::2] and hi.args:
        return mk('dict', *[x if i % 2 == 0 else node_any(v, x, y)
                            for i, (x, y) in enumerate(zip(hi.args, lo.args))])
    if hi.op == 'attrset' and lo.op == 'attrset' and hi.args[:2] == lo.args[:2]:
        return mk('attrset', hi.args[0], hi.args[1], node_any(v, hi.args[2], lo.args[2]))
    return None


def numericish(t):
    return t.op not in STRUCT_OPS and t.op not in ('none', 'str', 'true', 'false', 'enum', 'undef', 'seq', 'store',
                                                   'RET', 'RAISE', 'full', 'cell', 'eps', 'tab')


def top(*ts):
    best = None
    for t in ts:
        if t.op == 'ite':
            if best is None or t.args[0].id < best.id:
                best = t.args[0]
    return best


def cof(t, v):
    if t.op == 'ite' and t.args[0] is v:
        return t.args[1], t.args[2]
    return t, t


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    v = top(c, a, b)
    c1, c0 = cof(c, v)
    a1, a0 = cof(a, v)
    b1, b0 = cof(b, v)
    a1, b1 = assume(a1, v, True), assume(b1, v, True)
    a0, b0 = assume(a0, v, False), assume(b0, v, False)
    c1, c0 = assume(c1, v, True), assume(c0, v, False)
    hi = ite(c1, a1, b1)
    lo = ite(c0, a0, b0)
    r = node(v, hi, lo) if order_ok(v, hi) and order_ok(v, lo) else node_any2(v, hi, lo)
    _ite[k] = r
    return r


def node_any2(v, hi, lo):
    return mk('ite', v, hi, lo)


def bnot(c):
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def constrain(t, pc):
    """simplify t on the region pc (conjunctive part only)"""
    while pc.op == 'ite':
        v, hi, lo = pc.args
        if lo is FALSE:
            t = assume(t, v, True)
            pc = hi
        elif hi is FALSE:
            t = assume(t, v, False)
            pc = lo
        else:
            break
    return t


_gcof = {}


def gcof(t, pc):
    """generalised cofactor: t on the region pc, the same term for all terms that agree on pc"""
    if pc is TRUE or pc is FALSE or not t.ci:
        return t
    if t.op != 'ite':
        return constrain(t, pc)
    k = (t, pc)
    r = _gcof.get(k)
    if r is not None:
        return r
    v = top(t, pc)
    p1, p0 = cof(pc, v)
    t1, t0 = cof(t, v)
    if p0 is FALSE:
        r = gcof(assume(t1, v, True), p1)
    elif p1 is FALSE:
        r = gcof(assume(t0, v, False), p0)
    else:
        r = node_any(v, gcof(assume(t1, v, True), p1), gcof(assume(t0, v, False), p0))
    _gcof[k] = r
    return r


# ---------------------------------------------------------------- applications

SMART = {}


def smart(name):
    def deco(f):
        SMART[name] = f
        return f
    return deco


NOLIFT = {'map', 'fmap', 'sum', 'tab', 'mu', 'any', 'ph', 'col', 'cell', 'attr', 'ev', 'lam', 'scan',
          'list', 'tuple', 'dict', 'set', 'trk'}


@smart('trk')
def _trk(x):
    return mk('trk', x) if x.op == 'ite' else x


def app(name, *args):
    f = SMART.get(name)
    if name == 'store':
        return store_lift(*args)
    if name in NOLIFT:
        return f(*args) if f else mk(name, *args)
    g = f if f else (lambda *a: mk(name, *a))
    if any(a.op == 'ite' for a in args if isinstance(a, T)):
        fixed = [a for a in args if not isinstance(a, T)]
        if not fixed:
            return liftn(g, args)
        tidx = [i for i, a in enumerate(args) if isinstance(a, T)]

        def h(*ts):
            full = list(args)
            for i, t in zip(tidx, ts):
                full[i] = t
            return g(*full)
        return liftn(h, [args[i] for i in tidx])
    return g(*args)


def store_lift(a, ix, v):
    """conditional arrays and indices are lifted, a conditional value stays inside"""
    if (a.op == 'ite' or ix.op == 'ite') and a.nl * ix.nl <= LIMIT:
        t = top(a, ix)
        a1, a0 = cof(a, t)
        i1, i0 = cof(ix, t)
        return node_any(t, store_lift(a1, i1, assume(v, t, True)), store_lift(a0, i0, assume(v, t, False)))
    return _store(a, ix, v)


@smart('transpose')
def _transpose(x):
    if x.op == 'transpose':
        return x.args[0]
    if x.op == 'asmatrix' and x.args[0].op == 'list' and x.args[0].args:
        rows = x.args[0].args
        if all(r.op == 'list' and len(r.args) == len(rows[0].args) for r in rows):
            return app('asmatrix', mk('list', *[mk('list', *[r.args[i] for r in rows]) for i in range(len(rows[0].args))]))
        if all(r.op in ('attr', 'num', 'poly', 'sym') for r in rows):
            return app('asmatrix', mk('list', *[mk('list', r) for r in rows]))
    return mk('transpose', x)


@smart('cos')
def _cos(x):
    x, s = evensign(x)
    return mk('cos', x)


@smart('sin')
def _sin(x):
    x, s = evensign(x)
    r = mk('sin', x)
    return neg(r) if s < 0 else r


def evensign(x):
    d = poly_of(x)
    if not d:
        return x, 1
    lead = max(d, key=mkey)
    if d[lead] < 0:
        return neg(x), -1
    return x, 1


@smart('abs')
def _abs(x):
    if x.op == 'num':
        return num(abs(x.args[0]))
    if nonneg(x):
        return x
    x, _ = evensign(x)
    return mk('abs', x)


# shape of the ellipsoid: axes are positive, the flattening lies between 0 and 1
ELLIPSOID = ('semi_major_axis', 'semi_minor_axis', 'flat_coeff')


def square_root(x):
    """the root of the square of a polynomial in the constants of the ellipsoid"""
    if x.op != 'poly' or len(x.args) > 10:
        return None
    p = poly_of(x)
    if any(a.op != 'attr' or a.args[1] not in ELLIPSOID for m in p for a, e in m):
        return None
    terms = []
    for m, c in p.items():
        if c > 0 and all(e % 2 == 0 for a, e in m):
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                terms.append((tuple((a, e // 2) for a, e in m), Fraction(n, d)))
    if not 1 <= len(terms) <= 4:
        return None
    # the term with the least power of the flattening gives the sign
    terms.sort(key=lambda t: sum(e for a, e in t[0] if a.args[1] == 'flat_coeff'))
    for signs in itertools.product((1, -1), repeat=len(terms) - 1):
        r = of_poly({m: c * s for (m, c), s in zip(terms, (1,) + signs)})
        if mul(r, r) is x:
            return r
    return None


@smart('sqrt')
def _sqrt(x):
    if x.op == 'num':
        n = x.args[0]
        if n >= 0:
            p, q = math.isqrt(n.numerator), math.isqrt(n.denominator)
            if p * p == n.numerator and q * q == n.denominator:
                return num(Fraction(p, q))
    r = square_root(x)
    if r is not None:
        return r
    return mk('sqrt', x)


@smart('exp')
def _exp(x):
    if x is ZERO:
        return ONE
    return mk('exp', x)


@smart('pow')
def _pow(x, y):
    if y.op == 'num':
        n = y.args[0]
        if n.denominator == 1 and abs(n) <= 6:
            return power(x, int(n))
        if n == Fraction(1, 2):
            return app('sqrt', x)
        if n == Fraction(-1, 2):
            return div(ONE, app('sqrt', x))
        if x.op == 'num' and n.denominator == 1:
            return num(x.args[0] ** int(n))
    return mk('pow', x, y)


def pos(d):
    """max(d, 0); pos(-d) = pos(d) - d"""
    if d.op == 'num':
        return num(max(d.args[0], F0))
    if nonneg(d):
        return d
    if NOFOLD:
        return lift1(lambda x: ite(gt0(x), x, ZERO), d)
    pd = poly_of(d)
    lead = max(pd, key=mkey)
    if pd[lead] < 0:
        return _add(d, mk('pos', neg(d)))
    return mk('pos', d)


SMART['pos'] = pos


def _minmax(name, fn):
    def f(*args):
        out = []
        for a in args:
            if a.op == name:
                out.extend(a.args)
            else:
                out.append(a)
        consts = [a.args[0] for a in out if a.op == 'num']
        rest = sorted({a for a in out if a.op != 'num'}, key=lambda t: t.id)
        if consts:
            rest.append(num(fn(consts)))
        if len(rest) == 1:
            return rest[0]
        if name == 'max' and len(rest) == 2 and _add(rest[0], rest[1]) is ZERO:
            return app('abs', rest[0])
        if len(rest) == 2 and all(numericish(x) for x in rest):
            x, y = rest
            d = _add(y, neg(x))
            if d.op != 'ite':
                return _add(x, pos(d)) if name == 'max' else _add(y, neg(pos(d)))
        return mk(name, *rest)
    SMART[name] = f


_minmax('min', min)
_minmax('max', max)


@smart('floordiv')
def _floordiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(Fraction(math.floor(a.args[0] / b.args[0])))
    return mk('floordiv', a, b)


@smart('mod')
def _mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return mk('mod', a, b)


@smart('int')
def _int(a):
    if a.op == 'num':
        return num(Fraction(int(a.args[0])))
    if is_int(a):
        return a
    return mk('int', a)


@smart('radians')
def _radians(a):
    return div(mul(a, PI), num(180))


@smart('degrees')
def _degrees(a):
    return div(mul(a, num(180)), PI)


@smart('asarray')
def _asarray(a, *dt):
    if a.op in ('asarray',):
        return a
    return mk('asarray', a, *dt) if dt else a


@smart('tolist')
def _tolist(a):
    return a


@smart('len')
def _len(a):
    if a.op in ('list', 'tuple', 'set'):
        return num(len(a.args))
    if a.op == 'dict':
        return num(len(a.args) // 2)
    if a.op == 'str':
        return num(len(a.args[0]))
    if a.op == 'append':
        return add(app('len', a.args[0]), ONE)
    if a.op == 'concat':
        r = ZERO
        for x in a.args:
            r = add(r, app('len', x))
        return r
    if a.op == 'map':
        return a.args[0]
    if a.op == 'store':
        return app('len', a.args[0])
    if a.op == 'tab':
        return app('len', a.args[0])
    if a.op == 'full':
        sh = a.args[0]
        if sh.op in ('tuple', 'list'):
            return sh.args[0]
        return sh
    if a.op == 'arange':
        return sub(a.args[1], a.args[0])
    if a.op == 'select' and len(a.args[1].args) == 1:
        s = a.args[1].args[0]
        if s.op == 'slice' and s.args[2] is NONE and s.args[1] is NONE and s.args[0].op == 'num' and s.args[0].args[0] == 0:
            return app('len', a.args[0])
    if a.op in ('asarray', 'sorted', 'flip', 'keys', 'values', 'items'):
        return app('len', a.args[0])
    return mk('len', a)


@smart('append')
def _append(a, v):
    if a.op == 'list':
        return mk('list', *(a.args + (v,)))
    return mk('append', a, v)


@smart('concat')
def _concat(*xs):
    out = []
    for x in xs:
        if x.op == 'concat':
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if x.op == 'list' and not x.args:
            continue
        if x.op == 'list' and res and res[-1].op == 'list':
            res[-1] = mk('list', *(res[-1].args + x.args))
        elif x.op == 'list' and res and res[-1].op == 'append':
            r = res[-1]
            for v in x.args:
                r = mk('append', r, v)
            res[-1] = r
        else:
            res.append(x)
    if not res:
        return mk('list')
    # list appended to something: use append form
    while len(res) > 1 and res[-1].op == 'list':
        l = res.pop()
        if len(res) == 1:
            r = res[0]
        else:
            r = mk('concat', *res)
        for v in l.args:
            r = _append(r, v)
        return r
    if len(res) == 1:
        return res[0]
    return mk('concat', *res)


@smart('cat')
def _cat(*xs):
    out = []
    for x in xs:
        if x.op == 'cat':
            out.extend(x.args)
        elif x.op == 'num':
            n = x.args[0]
            out.append(string(str(n.numerator) if n.denominator == 1 else repr(float(n))))
        elif x.op in ('sym', 'attr', 'select', 'ret', 'ph', 'getattr', 'key') or x.op.startswith('arg'):
            out.append(app('str_of', x))      # joined to a text: it is one
        else:
            out.append(x)
    res = []
    for x in out:
        if x.op == 'str' and x.args[0] == '':
            continue
        if x.op == 'str' and res and res[-1].op == 'str':
            res[-1] = string(res[-1].args[0] + x.args[0])
        else:
            res.append(x)
    if not res:
        return string('')
    if len(res) == 1 and res[0].op in ('str', 'str_of'):
        return res[0]
    return mk('cat', *res)


def _logical(nm, unit, op):
    def f(*xs):
        out = []
        for x in xs:
            out.extend(x.args if x.op == nm else (x,))
        some = out[0]
        # an array filled with the neutral element only gives the shape
        out = [x for x in out if x is not unit and not (x.op == 'full' and x.args[1] in (unit, ONE if unit is TRUE else ZERO))]
        if not out:
            return some
        if all(x.bl for x in out):
            r = unit
            for x in out:
                r = op(r, x)
            return r
        out = sorted(set(out), key=lambda t: t.id)
        if unit is TRUE and all(x.op in ('isfinite', 'isnan', 'isinf') for x in out):
            # flags: both is the product
            r = ONE
            for x in out:
                r = mul(r, x)
            return r
        return out[0] if len(out) == 1 else mk(nm, *out)
    SMART[nm] = f


_logical('logical_and', TRUE, lambda a, b: band(a, b))
_logical('logical_or', FALSE, lambda a, b: bor(a, b))


@smart('size')
def _size(x):
    if x.op == 'argwhere':
        return app('len', mk('select', mk('nonzero', x.args[0]), idx(ZERO)))
    if x.op == 'select' and x.args[0].op == 'nonzero':
        return app('len', x)
    return mk('size', x)


@smart('amin')
def _amin(x, *rest):
    # indices of the set elements of a vector, in ascending order
    if not rest and x.op == 'argwhere':
        return mk('select', mk('nonzero', x.args[0]), idx(ZERO, ZERO))
    if not rest and x.op == 'select' and x.args[0].op == 'nonzero' and x.args[1] is idx(ZERO):
        return mk('select', x.args[0], idx(ZERO, ZERO))
    return mk('amin', x, *rest)


@smart('amax')
def _amax(x, *rest):
    if not rest and x.op == 'argwhere':
        return mk('select', mk('nonzero', x.args[0]), idx(ZERO, num(-1)))
    if not rest and x.op == 'select' and x.args[0].op == 'nonzero' and x.args[1] is idx(ZERO):
        return mk('select', x.args[0], idx(ZERO, num(-1)))
    return mk('amax', x, *rest)


@smart('join')
def _join(*xs):
    out = []
    for i, x in enumerate(xs):
        if i == 0 and x.op == 'join':
            out.extend(x.args)
        elif 0 < i < len(xs) - 1 and x.op == 'str' and x.args[0] == '':
            continue
        elif i and x.op == 'str' and x.args[0] != '' and out[-1].op == 'str' and out[-1].args[0] == '' and len(out) > 1:
            out[-1] = x
        else:
            out.append(x)
    out = [x for i, x in enumerate(out) if not (0 < i < len(out) - 1 and x.op == 'str' and x.args[0] == '')]
    if len(out) == 1:
        return out[0]
    return mk('join', *out)


def idx(*parts):
    parts = list(parts)
    while parts and parts[-1] is FULL:
        parts.pop()
    return mk('idx', *parts)


def _slice(lo, hi, st):
    if st is not NONE and isnum(st, 1):
        st = NONE
    if st is NONE and isnum(lo, 0):
        lo = NONE
    return mk('slice', lo, hi, st)


SMART['slice'] = _slice
SMART['idx'] = idx


def is_slice(t):
    return t.op in ('slice', 'newaxis', 'none', 'cmpmask')


@smart('select')
def _select(a, ix):
    parts = ix.args
    if not parts:
        return a
    if parts[-1].op == 'slice' and parts[-1].args[:2] == (NONE, NONE) and isnum(parts[-1].args[2], -1) \
            and not any(is_slice(x) for x in parts[:-1]):
        return app('flip', app('select', a, idx(*parts[:-1])))
    if a.op == 'poly' and not any(is_slice(x) for x in parts):
        sh = {array_shape(x) for c, m in a.args for x, e in m}
        if len(sh) == 1 and None not in sh and len(parts) <= len(sh.pop()):
            r = ZERO
            for c, m in a.args:
                x = num(c)
                for y, e in m:
                    x = mul(x, power(app('select', y, ix), e))
                r = add(r, x)
            return r
    # relative to the end
    p0 = parts[0]
    if p0.op == 'poly' or p0.op == 'len':
        d = dict(poly_of(p0))
        ln = app('len', a)
        if ln.op == 'len' and ((ln, 1),) in d and d[((ln, 1),)] == 1:
            rest = _add(p0, neg(ln))
            if rest.op == 'num' and rest.args[0] < 0:
                parts = (rest,) + parts[1:]
                ix = mk('idx', *parts)
                p0 = rest
    if a.op in ('list', 'tuple') and p0.op == 'num' and p0.args[0].denominator == 1:
        i = int(p0.args[0])
        if -len(a.args) <= i < len(a.args):
            return app('select', a.args[i], idx(*parts[1:]))
    if a.op in ('list', 'tuple') and p0.op == 'slice' and len(parts) == 1:
        def cv(x):
            return None if x is NONE else int(x.args[0]) if x.op == 'num' else 'no'
        b = [cv(x) for x in p0.args]
        if 'no' not in b:
            return mk(a.op, *a.args[slice(*b)])
    if a.op == 'dict' and isconst(p0):
        for i in range(0, len(a.args), 2):
            if a.args[i] is p0:
                return app('select', a.args[i + 1], idx(*parts[1:]))
    if a.op == 'str' and p0.op == 'slice':
        def cv(x):
            return None if x is NONE else int(x.args[0]) if x.op == 'num' else 'no'
        b = [cv(x) for x in p0.args]
        if 'no' not in b:
            return string(a.args[0][slice(*b)])
    if a.op == 'append' and isnum(p0, -1):
        return app('select', a.args[1], idx(*parts[1:]))
    if a.op == 'append' and p0.op == 'num' and p0.args[0] < -1:
        return app('select', a.args[0], idx(num(p0.args[0] + 1), *parts[1:]))
    if a.op == 'store':
        sp = a.args[1].args
        if sp == parts:
            return a.args[2]
        if len(parts) > len(sp) and parts[:len(sp)] == sp and not any(is_slice(x) for x in sp):
            return app('select', a.args[2], idx(*parts[len(sp):]))
        if sp and not is_slice(sp[0]) and not is_slice(p0) and distinct(sp[0], p0):
            return app('select', a.args[0], ix)
    if a.op == 'full' and not any(is_slice(x) for x in parts):
        sh = a.args[0]
        dims = sh.args if sh.op in ('tuple', 'list') else (sh,)
        if len(parts) == len(dims):
            return a.args[1]
        if len(parts) < len(dims):
            return app('full', mk('tuple', *dims[len(parts):]), *a.args[1:])
    if a.op == 'map' and not is_slice(p0) and not (p0.op == 'num' and p0.args[0] < 0):
        body = subst(a.args[1], {mk('bv', bound_of(a)): p0})
        return app('select', body, idx(*parts[1:]))
    if a.op == 'arange' and not is_slice(p0) and len(parts) == 1 and not (p0.op == 'num' and p0.args[0] < 0):
        return add(a.args[0], p0)
    if a.op == 'flip' and not is_slice(p0):
        # element i from the end
        inner = a.args[0]
        if not (p0.op == 'num' and p0.args[0] < 0):
            return app('select', inner, idx(sub(neg(p0), ONE), *parts[1:])) if p0.op == 'num' else \
                app('select', inner, idx(sub(sub(app('len', inner), ONE), p0), *parts[1:]))
    if a.op == 'select':
        ap = a.args[1].args
        if not any(is_slice(x) for x in ap):
            return app('select', a.args[0], idx(*(ap + parts)))
        if len(ap) == 1 and ap[0].op == 'slice' and ap[0].args[2] is NONE and not is_slice(p0) \
                and not (p0.op == 'num' and p0.args[0] < 0):
            lo = ap[0].args[0]
            if lo is NONE:
                if p0.op in ('bv', 'tv'):
                    return app('select', a.args[0], ix)
            elif lo.op == 'num' and lo.args[0] >= 0 or lo.op != 'num':
                return app('select', a.args[0], idx(add(lo, p0), *parts[1:]))
        # trailing slices: a[i, :n][k]
        k = 0
        while k < len(ap) and not is_slice(ap[k]):
            k += 1
        if 0 < k == len(ap) - 1 and ap[k].op == 'slice' and ap[k].args[2] is NONE and not is_slice(p0) \
                and not (p0.op == 'num' and p0.args[0] < 0):
            lo = ap[k].args[0]
            if lo.op == 'num' and lo.args[0] >= 0 or lo.op not in ('num', 'none') or p0.op in ('bv', 'tv'):
                return app('select', a.args[0], idx(*(ap[:k] + (p0 if lo is NONE else add(lo, p0),) + parts[1:])))
    return mk('select', a, ix)


def array_shape(t):
    """shape of an array built here, as a tuple of terms; None if not known"""
    while t.op in ('store', 'tab', 'mu'):
        t = t.args[2] if t.op == 'mu' else t.args[0]
    if t.op == 'full':
        sh = t.args[0]
        return sh.args if sh.op in ('tuple', 'list') else (sh,)
    if t.op == 'select' and not any(is_slice(x) for x in t.args[1].args):
        r = array_shape(t.args[0])
        return None if r is None or len(r) <= len(t.args[1].args) else r[len(t.args[1].args):]
    return None


def distinct(x, y):
    if x is y:
        return False
    if x.op in ('str', 'enum') and y.op in ('str', 'enum'):
        return True
    d = _add(x, neg(y)) if x.op != 'ite' and y.op != 'ite' else None
    return d is not None and d.op == 'num' and d.args[0] != 0 and (
        not (x.op == 'num' and y.op == 'num') or (x.args[0] >= 0) == (y.args[0] >= 0))


def stored(a, v):
    """what an element of the numeric array a holds after v was stored"""
    while a.op in ('store', 'tab'):
        a = a.args[0]
    if a.op != 'full' or len(a.args) < 3 or not re.search('float|int|complex', show(a.args[2])):
        return v
    if v.op == 'ite':
        return ite(atom(v.args[0]), stored(a, v.args[1]), stored(a, v.args[2]))
    if v is TRUE:
        return ONE
    if v is FALSE:
        return ZERO
    if v.op == 'full' and v.args[1].op == 'num':
        return v.args[1]
    return v


@smart('tab')
def _tab(a, dom, ix, v, h):
    return mk('tab', a, dom, ix, stored(a, v), h)


@smart('store')
def _store(a, ix, v):
    parts = ix.args
    if parts:
        v = stored(a, v)
    if not parts:
        # whole content replaced
        if a.op == 'full':
            if occurs(a, v):
                return v
            return app('full', a.args[0], v, *a.args[2:])
        if occurs(a, v):
            return v
        return mk('store', a, ix, v)
    if v.op == 'select' and v.args[0] is a and v.args[1] is ix:
        return a
    if a.op == 'list' and parts[0].op == 'num' and len(parts) == 1:
        i = int(parts[0].args[0])
        if -len(a.args) <= i < len(a.args):
            l = list(a.args)
            l[i] = v
            return mk('list', *l)
    if a.op == 'dict' and isconst(parts[0]) and len(parts) == 1:
        l = list(a.args)
        for i in range(0, len(l), 2):
            if l[i] is parts[0]:
                l[i + 1] = v
                return mk('dict', *l)
        if all(isconst(k) for k in l[::2]):
            return mk('dict', *(l + [parts[0], v]))
    if a.op == 'store':
        if a.args[1] is ix:
            return app('store', a.args[0], ix, v)
        ap = a.args[1].args
        if len(ap) >= 1 and not is_slice(ap[0]) and not is_slice(parts[0]) and distinct(ap[0], parts[0]):
            # canonical order of independent stores
            if ix.id < a.args[1].id:
                return app('store', app('store', a.args[0], ix, v), a.args[1], a.args[2])
    return mk('store', a, ix, v)


def occurs(x, t, memo=None):
    if memo is None:
        memo = {}
    if x is t:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = False
    for c in children(t):
        if occurs(x, c, memo):
            memo[t] = True
            return True
    return False


@smart('full')
def _full(shape, v, *dt):
    if shape.op in ('tuple', 'list'):
        if len(shape.args) == 1:
            shape = shape.args[0]
        else:
            shape = mk('tuple', *shape.args)
    return mk('full', shape, v, *dt)


@smart('arange')
def _arange(lo, hi):
    return mk('arange', lo, hi)


@smart('matmul')
def _matmul(a, b):
    return mk('matmul', a, b)


@smart('seq')
def _seq(tr, ev):
    return mk('seq', tr, ev)


@smart('dot')
def _dot(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk('dot', a, b)


@smart('contains')
def _contains(x, c):
    if c.op in ('list', 'tuple', 'set') and all(isconst(e) or True for e in c.args) and len(c.args) <= 12:
        r = FALSE
        for e in c.args:
            r = bor(r, eq(x, e))
        return r
    if c.op == 'dict' and all(isconst(k) for k in c.args[::2]) and len(c.args) <= 24:
        r = FALSE
        for e in c.args[::2]:
            r = bor(r, eq(x, e))
        return r
    if c.op == 'keys':
        return _contains(x, c.args[0])
    if c.op == 'str' and x.op == 'str':
        return TRUE if x.args[0] in c.args[0] else FALSE
    return atom(mk('in', x, c))


# ---------------------------------------------------------------- binders

BINDERS = {'map': 1, 'fmap': 1, 'sum': 1, 'tab': 1, 'mu': 1, 'any': 1, 'scan': 1}


def bound_of(t):
    """number of the variable bound by binder term t (recorded as last argument)"""
    return t.args[-1]


def close(op, tvar, args):
    """bind temporary variable tvar in args; args are all under the binder except those marked free (index 0 of map..)"""
    h = 0
    for a in args:
        if isinstance(a, T):
            h = max(h, a.bh)
    h += 1
    b = mk('bv', h)
    new = [subst(a, {tvar: b}) if isinstance(a, T) else a for a in args]
    # substitution may change nested heights
    hh = 0
    for a in new:
        if isinstance(a, T):
            hh = max(hh, a.bh if not occurs(b, a) else max([h] + [a.bh]))
    return app(op, *new, h)


@smart('map')
def _map(n, body, h):
    b = mk('bv', h)
    # identity over a sequence
    if body.op == 'select' and body.args[1].args == (b,) and not occurs(b, body.args[0]) and n is app('len', body.args[0]):
        return body.args[0]
    if body is b:
        return mk('arange', ZERO, n)
    if n.op == 'num' and n.args[0].denominator == 1 and n.args[0] <= 16:
        return mk('list', *[subst(body, {b: num(i)}) for i in range(int(n.args[0]))])
    return mk('map', n, body, h)


@smart('sum')
def _sum(n, body, h):
    b = mk('bv', h)
    if not occurs(b, body):
        return mul(n, body)
    if body.op == 'poly':
        r = ZERO
        for c, m in body.args:
            inn = {}
            out = {}
            for a, e in m:
                (inn if occurs(b, a) else out)[a] = e
            coef = of_poly({tuple(sorted(out.items(), key=lambda x: x[0].id)): c})
            inner = of_poly({tuple(sorted(inn.items(), key=lambda x: x[0].id)): F1})
            if inner is ONE:
                r = add(r, mul(coef, n))
            else:
                r = add(r, mul(coef, mk('sum', n, inner, h)))
        return r
    return mk('sum', n, body, h)


@smart('fmap')
def _fmap(n, cond, body, h):
    if cond is TRUE:
        return _map(n, body, h)
    if cond is FALSE:
        return mk('list')
    return mk('fmap', n, cond, body, h)


def subst(t, m, memo=None, into_ph=True):
    if memo is None:
        memo = {}
    keys_tv = all(k.op == 'tv' for k in m)
    minbv = min((k.args[0] for k in m if k.op == 'bv'), default=None)

    def rec(t):
        r = m.get(t)
        if r is not None:
            return r
        if keys_tv and not t.tv:
            return t
        if not into_ph and t.op == 'ph':
            return t
        if not t.args:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'poly':
            r = ZERO
            for c, mono in t.args:
                x = num(c)
                for a, e in mono:
                    y = rec(a)
                    x = mul(x, power(y, e) if e > 0 else div(ONE, power(y, -e)))
                r = add(r, x)
        elif op == 'ite':
            c = rec_bool(t.args[0])
            r = ite(c, rec(t.args[1]), rec(t.args[2]))
        elif op == 'pgrp':
            r = rec(t.args[0])
        elif op == 'cmp':
            r = rec_bool(t)
        else:
            new = [rec(a) if isinstance(a, T) else a for a in t.args]
            if all(x is y for x, y in zip(new, t.args)):
                r = t
            elif op in BINDERS:
                r = app(op, *new)
            else:
                r = app(op, *new)
        memo[t] = r
        return r

    def rec_bool(a):
        op = a.op
        r = m.get(a)
        if r is not None:
            return truth(r)
        if op == 'cmp':
            L = rec(a.args[0])
            k = num(a.args[2])
            if a.args[1] == 'gt':
                return lt(k, L)
            if a.args[1] == 'lt':
                return lt(L, k)
            return eq(L, k)
        if op == 'eq':
            return eq(rec(a.args[0]), rec(a.args[1]))
        if op == 'truth':
            return truth(rec(a.args[0]))
        if op == 'in':
            return app('contains', rec(a.args[0]), rec(a.args[1]))
        r = rec(a)
        return r if r.bl else atom(r) if r.op != 'ite' else truth(r)
    return rec(t)


# ---------------------------------------------------------------- printing

def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.args
    if depth <= 0:
        return '..'
    d = depth - 1
    if op == 'num':
        return str(a[0]) if a[0].denominator == 1 else '%g' % float(a[0])
    if op == 'str':
        return repr(a[0])
    if op in ('true', 'false', 'none'):
        return op
    if op == 'sym':
        return str(a[0])
    if op == 'enum':
        return a[0]
    if op == 'bv':
        return 'i%d' % a[0]
    if op == 'tv':
        return 't%d' % a[0]
    if op == 'attr':
        return '%s.%s%s' % (show(a[0], d), a[1], "'" if len(a) > 2 else '')
    if op == 'poly':
        out = []
        for c, m in a[:8]:
            s = '*'.join(show(x, d) + ('^%s' % e if e != 1 else '') for x, e in m)
            out.append((('%g' % float(c)) if not m else s if c == 1 else '%g*%s' % (float(c), s)))
        return '(' + ' + '.join(out) + (' + ...' if len(a) > 8 else '') + ')'
    if op == 'cmp':
        return '%s%s%g' % (show(a[0], d), {'gt': '>', 'lt': '<', 'eq': '=='}[a[1]], float(a[2]))
    if op == 'ite':
        return 'if(%s ? %s : %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == 'select':
        return '%s[%s]' % (show(a[0], d), ','.join(show(x, d) for x in a[1].args))
    if op == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in a[:2])
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))
