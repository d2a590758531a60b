"""Comparison of two loops location by location.

Both loops are given as systems of recurrences (initial value and value after one iteration of every
carried location, in terms of placeholders for the values before the iteration).  Locations of the heap,
the containers and the effect traces correspond by name; local variables are matched by their recurrences.
Corresponding placeholders get one common name, so that the recurrences can be compared one by one.
A difference counts only if it exists in a state of the loop's flags that is reachable (abstract
interpretation of the recurrences over {True, False, None, object}).
"""
from .terms import *
from .interp import LOOPS, init_type

EQUAL, DIFF, UNKNOWN = 'equal', 'diff', 'unknown'
ANY = mk('sym', '?')


class GiveUp(Exception):
    pass


def subterms(t, stop=()):
    out, stack = {}, [t]
    while stack:
        x = stack.pop()
        if x in out:
            continue
        out[x] = True
        if x in stop:
            continue
        stack.extend(children(x))
    return out


def outer_mus(t, reg):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'mu' and (x in reg or x in LOOPS):
            out.append(x)
            continue
        stack.extend(children(x))
    return out


def lookup(x, reg):
    return reg.get(x) or (LOOPS[x] + ({},))


class Sys:
    """recurrence system of a loop under a substitution"""
    def __init__(self, rec, m):
        self.rec, self.m = rec, m
        s = lambda t: subst(t, m) if m and isinstance(t, T) else t
        self.vars = {}
        for k, (ph, init, body) in rec.vars.items():
            k2 = self.k2(k)
            self.vars[k2] = (s(ph) if ph is not None else None, s(init), s(body))
        self.stop, self.dom = s(rec.stop), s(rec.dom)
        self.tv = rec.tv

    def k2(self, k):
        if k[0] == 'cells' and k[1] in self.rec.alias:
            return ('content', self.k2(('heap', self.rec.alias[k[1]]))[1])
        s = lambda t: subst(t, self.m) if self.m and isinstance(t, T) else t
        if isinstance(k[1], T):
            return (k[0], s(k[1]))
        if isinstance(k[1], tuple):
            return (k[0], tuple(s(x) if isinstance(x, T) else x for x in k[1]))
        return k


def anon(k):
    """location without a name of its own: local variable or local container"""
    if k[0] == 'env':
        return True
    ts = [k[1]] if isinstance(k[1], T) else [x for x in k[1] if isinstance(x, T)] if isinstance(k[1], tuple) else []
    return any(x.op in ('cell', 'obj') for t in ts for x in subterms(t))


def phs_in(t, phs, memo):
    r = memo.get(t)
    if r is None:
        st = set(phs)
        r = {x for x in subterms(t, st) if x in st}
        memo[t] = r
    return r


class Pair:
    def __init__(self, a, b, cmpfn, depth=0, use_a=(), use_b=()):
        """a: code, b: reference (Sys)"""
        self.a, self.b, self.cmpfn = a, b, cmpfn
        self.use_a, self.use_b = set(use_a), set(use_b)
        self.verdict = {}
        self.exact = True
        tv = mk('tv', 900000 + depth)
        self.match(tv)

    # ---------------------------------------------------------------- matching
    def live(self, s, roots):
        phs = {v[0]: k for k, v in s.vars.items() if v[0] is not None}
        by = {}
        for k, v in s.vars.items():
            if v[0] is not None:
                by.setdefault(v[0], []).append(k)
        memo = {}
        todo = list(roots)
        seen = set(todo)
        dep = phs_in(s.stop, phs, memo)
        for p in dep:
            for k in by[p]:
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        while todo:
            k = todo.pop()
            for p in phs_in(s.vars[k][2], phs, memo):
                for q in by[p]:
                    if q not in seen:
                        seen.add(q)
                        todo.append(q)
        return seen

    def match(self, tv):
        a, b = self.a, self.b
        self.pair = {}
        for k in a.vars:
            if not anon(k) and k in b.vars:
                self.pair[k] = k
        roots_a = [k for k in a.vars if not anon(k) or k in self.use_a]
        roots_b = [k for k in b.vars if not anon(k) or k in self.use_b]
        la, lb = self.live(a, roots_a), self.live(b, roots_b)
        ta, tb = {a.tv: tv}, {b.tv: tv}
        # the placeholders are named after the number of the pass, and are renamed with it
        pn = lambda p, m: subst(p, m) if p is not None else None
        va = {k: (pn(v[0], ta), v[1], subst(v[2], ta)) for k, v in a.vars.items() if k in la}
        vb = {k: (pn(v[0], tb), v[1], subst(v[2], tb)) for k, v in b.vars.items() if k in lb}
        self.va, self.vb = va, vb
        na, nb = {}, {}          # placeholder -> common placeholder
        cnt = [0]

        def bind(ka, kb):
            pa, pb = va[ka][0], vb[kb][0]
            if pa is None or pb is None:
                return
            if pa in na or pb in nb:
                if na.get(pa) is None or na.get(pa) is not nb.get(pb):
                    self.exact = False
                    if pa not in na:
                        na[pa] = nb[pb]
                    elif pb not in nb:
                        nb[pb] = na[pa]
                return
            cnt[0] += 1
            x = mk('ph', mk('col', 'name', string('%s%d' % (kb[0][0], cnt[0])), string(str(kb[1]) if kb[0] == 'env' else kb[0])), *pb.args[1:])
            na[pa] = x
            nb[pb] = x
        for k in self.pair:
            if k in va and k in vb:
                bind(k, k)

        def bykey():
            # locations whose key itself mentions placeholders
            hit = False
            rest_b = {self.ren(q, nb): q for q in vb if q[0] != 'exit' and not anon(q) and q not in self.pair.values()}
            for k in va:
                if k[0] != 'exit' and not anon(k) and k not in self.pair:
                    q = rest_b.get(self.ren(k, na))
                    if q is not None:
                        self.pair[k] = q
                        bind(k, q)
                        hit = True
            return hit
        while bykey():
            pass
        ea = [k for k in va if anon(k) and va[k][0] not in na]
        eb = [k for k in vb if anon(k) and vb[k][0] not in nb]
        # one representative per placeholder
        ea = list({va[k][0]: k for k in ea}.values())
        eb = list({vb[k][0]: k for k in eb}.values())
        # exact signatures, refined as names become known
        while ea and eb:
            if bykey():
                ea = [k for k in ea if va[k][0] not in na]
                eb = [k for k in eb if vb[k][0] not in nb]
                continue
            sig_a = {k: self.sig(va, k, na) for k in ea}
            sig_b = {k: self.sig(vb, k, nb) for k in eb}
            hit = None
            for k in ea:
                same = [q for q in eb if sig_b[q] == sig_a[k]]
                if len(same) == 1 and sum(1 for x in ea if sig_a[x] == sig_a[k]) == 1:
                    hit = (k, same[0])
                    break
            if hit is None:
                # most similar pair with the same initial value
                best = None
                for k in ea:
                    for q in eb:
                        if sig_a[k][0] is not sig_b[q][0]:
                            continue
                        x, y = set(subterms(sig_a[k][1])), set(subterms(sig_b[q][1]))
                        sc = len(x & y) / max(1, len(x | y))
                        if best is None or sc > best[0]:
                            best = (sc, k, q)
                if best is None or best[0] < 0.02:
                    break
                hit = best[1:]
                self.exact_local = False
            bind(*hit)
            self.pair[hit[0]] = hit[1]
            ea.remove(hit[0])
            eb.remove(hit[1])
        while bykey():
            pass
        self.unmatched = bool(ea or eb)
        self.na, self.nb = na, nb
        # locals that share a placeholder with a matched location
        inv_b = {}
        for k in vb:
            if vb[k][0] in nb:
                inv_b.setdefault(nb[vb[k][0]], k)
        for k in va:
            if k not in self.pair and va[k][0] in na and na[va[k][0]] in inv_b:
                self.pair[k] = inv_b[na[va[k][0]]]
        self.ma = dict(na)
        self.mb = dict(nb)
        sa = lambda t: subst(t, self.ma)
        sb = lambda t: subst(t, self.mb)
        self.ca = {k: (na.get(v[0]), sa(v[1]), sa(v[2])) for k, v in va.items()}
        self.cb = {k: (nb.get(v[0]), sb(v[1]), sb(v[2])) for k, v in vb.items()}
        self.stop_a, self.stop_b = sa(subst(a.stop, ta)), sb(subst(b.stop, tb))
        self.ta, self.tb = ta, tb

    def ren(self, k, m):
        s = lambda t: subst(t, m) if isinstance(t, T) else t
        if isinstance(k[1], T):
            return (k[0], s(k[1]))
        if isinstance(k[1], tuple):
            return (k[0], tuple(s(x) for x in k[1]))
        return k

    def sig(self, vars, k, names):
        ph, init, body = vars[k]
        m = dict(names)
        for q, v in vars.items():
            if v[0] is not None and v[0] not in m:
                m[v[0]] = mk('ph', mk('col', 'free', mk('sym', 'own') if v[0] is ph else v[1]), *v[0].args[1:])
        return (subst(init, names), subst(body, m))

    # ---------------------------------------------------------------- reachable flag states
    def flags(self):
        out = {}
        for k, (ph, init, body) in self.cb.items():
            if ph is None or ph in out:
                continue
            out[ph] = (init, body)
        ok = set(out)
        while True:
            drop = set()
            for ph in ok:
                for t in out[ph]:
                    for x in leaves(t):
                        if absval(x) is None and x not in ok:
                            drop.add(ph)
            if not drop:
                break
            ok -= drop
        return {p: out[p] for p in ok}

    def reachable(self):
        fl = self.flags()
        if not fl or len(fl) > 10:
            return None
        order = sorted(fl, key=lambda t: t.id)
        init = []
        for p in order:
            vs = {absval(x) for x in leaves(fl[p][0])}
            init.append(vs)
        states = set()
        for combo in product(init):
            states.add(combo)
        work = list(states)
        while work:
            st = work.pop()
            env = dict(zip(order, st))
            bodies = tuple(plug(fl[p][1], env) for p in order)
            for nxt in joint(bodies, env):
                if nxt not in states:
                    states.add(nxt)
                    work.append(nxt)
                    if len(states) > 200:
                        return None
        return order, states

    # ---------------------------------------------------------------- verdicts
    def run(self):
        """verdict per code location"""
        v = {}
        diffs = []
        stop = self.decide(self.stop_a, self.stop_b)
        bad = self.unmatched or not self.exact
        own = {}
        for k, q in self.pair.items():
            if k not in self.ca or q not in self.cb:
                continue
            ia, ib = self.ca[k][1], self.cb[q][1]
            r = self.cmpfn(ia, ib, {}, {}) if ia is not ib else (EQUAL, '', None, None)
            if r[0] == EQUAL:
                r = self.decide(self.ca[k][2], self.cb[q][2])
            own[k] = r
        nd = sum(1 for r in list(own.values()) if r[0] == DIFF)
        self.own, self.stopv = own, stop
        inv = {}
        for k in self.ca:
            if self.ca[k][0] is not None:
                inv.setdefault(self.ca[k][0], k)
        memo = {}
        for k in own:
            seen = {k}
            todo = [k]
            deps = set()
            for p in phs_in(self.stop_a, inv, memo):
                todo.append(inv[p])
            while todo:
                x = todo.pop()
                for p in phs_in(self.ca[x][2], inv, memo):
                    y = inv[p]
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            seen |= {inv[p] for p in phs_in(self.stop_a, inv, memo)}
            r = own[k]
            if r[0] == EQUAL and stop[0] != EQUAL:
                r = (stop[0], 'loop exit: ' + stop[1], stop[2], stop[3])
            if r[0] != DIFF:
                for x in seen:
                    y = own.get(x)
                    if y is None:
                        y = (UNKNOWN, 'loop location %s has no counterpart' % (x,), None, None)
                    if y[0] == DIFF and x[0] != 'chans':
                        r = (DIFF, 'through %s: %s' % (locname(x), y[1]), y[2], y[3])
                        break
                    if y[0] == UNKNOWN and r[0] == EQUAL:
                        r = y
            if bad and r[0] == DIFF:
                r = (UNKNOWN, 'loop variables could not be matched; ' + r[1], r[2], r[3])
            v[k] = r
        self.nd = nd
        return v

    def decide(self, x, y):
        if x is y:
            return (EQUAL, '', None, None)
        ra = {}
        r = self.cmpfn(x, y, self.ma, self.mb)
        if r[0] != DIFF:
            return r
        if not hasattr(self, '_reach'):
            self._reach = self.reachable()
        if self._reach is None:
            return r
        order, states = self._reach
        worst = (EQUAL, '', None, None)
        for st in sorted(states, key=lambda s: [str(z) for z in s]):
            env = dict(zip(order, st))
            r = self.cmpfn(plug(x, env), plug(y, env), self.ma, self.mb)
            if r[0] == DIFF:
                return (DIFF, r[1], r[2], r[3])
            if r[0] == UNKNOWN:
                worst = r
        return worst


def locname(k):
    return str(k[1]) if not isinstance(k[1], tuple) else '.'.join(show(x, 4) if isinstance(x, T) else str(x) for x in k[1])


def product(sets):
    out = [()]
    for s in sets:
        out = [o + (x,) for o in out for x in s]
    return out


def leaves(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            stack.extend(x.args[1:])
        else:
            out.add(x)
    return out


def absval(x):
    if x is TRUE:
        return 'T'
    if x is FALSE:
        return 'F'
    if x is NONE:
        return 'N'
    if x.op in ('ret', 'new', 'obj') and len(x.args):
        return 'O'
    if x.op == 'undef':
        return 'U'
    return None


def plug(t, env):
    m = {}
    for p, v in env.items():
        if v == 'T':
            m[p] = TRUE
        elif v == 'F':
            m[p] = FALSE
        elif v == 'N':
            m[p] = NONE
        elif v == 'U':
            m[p] = UNDEF
    r = subst(t, m) if m else t
    for p, v in env.items():
        if v == 'O':
            r = restrict_atom(r, eq(p, NONE), False)
    return r


def restrict_atom(t, a, val):
    if a.op == 'ite':
        v, hi, lo = a.args
        if hi is TRUE and lo is FALSE:
            return assume(t, v, val)
        if hi is FALSE and lo is TRUE:
            return assume(t, v, not val)
    return t


def joint(bodies, env):
    out, seen, stack = set(), set(), [bodies]
    while stack:
        b = stack.pop()
        if b in seen:
            continue
        seen.add(b)
        if len(seen) > 50000:
            raise GiveUp()
        v = top(*b)
        if v is None:
            out.add(tuple(absval(x) or env.get(x, 'O') for x in b))
            continue
        for val in (True, False):
            stack.append(tuple(assume(cof(x, v)[0 if val else 1], v, val) for x in b))
    return out
