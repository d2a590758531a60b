"""Typestate of an input burst in the main processing loop (C01, C09).

The recurrences of the loop of L1BProcessor._process (from its value graph) are interpreted abstractly:
state = values of the loop's flags over {True, False, None, object} and, for each variable that can hold
a burst, how far the burst has got.  Every reachable abstract state is expanded over all gate
combinations; on each path the calls made with the burst are run through the burst's automaton
   read -> cal1, cal2 (each exactly once, any order) -> located (surface_locations)
and a burst may only be dropped after it was located.
"""
from sa.terms import *
from sa import loops
from sa.interp import LOOPS
from sa.run import ok, bad, und

CALS = ('cal1_algorithm', 'cal2_algorithm')
USE = ('surface_locations',)
EV = CALS + USE
WHERE = 'dedop/proc/sar/processor.py:L1BProcessor._process'


def main_loop(ctx):
    e = ctx.entry('run')
    s = ctx.code(e)
    best = None
    for t in s.it.loops_final():
        ch = t.vars.get(('chans', 'obj:self'))
        if ch is None:
            continue
        names = {x.args[0] for x in loops.subterms(ch[2]) if x.op == 'ev'}
        if set(EV) & names:
            if best is None or t.seq > best.seq:
                best = t
    return best


def project(t, memo, EV=EV):
    """trace restricted to the calibration and location calls"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'ite':
        a, b = project(t.args[1], memo, EV), project(t.args[2], memo, EV)
        r = a if a is b else ite(atom(t.args[0]), a, b)
    elif t.op == 'seq':
        x = project(t.args[0], memo, EV)
        ev = t.args[1]
        if ev.op == 'ev' and ev.args[0] in EV:
            r = push(x, ev)
        else:
            r = x
    elif t.op == 'mu':
        if spine(t.args[3]) & set(EV):
            raise loops.GiveUp('burst calls inside an inner loop')
        r = project(t.args[2], memo, EV)
    else:
        r = t
    memo[t] = r
    return r


def spine(t):
    out, stack, seen = set(), [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            stack.extend(x.args[1:])
        elif x.op == 'seq':
            out.add(x.args[1].args[0] if x.args[1].op == 'ev' else None)
            stack.append(x.args[0])
        elif x.op == 'mu':
            stack.extend(x.args[2:4])
    return out


def push(x, ev):
    if x.op == 'ite':
        return ite(atom(x.args[0]), push(x.args[1], ev), push(x.args[2], ev))
    return mk('seq', x, ev)


def events(t):
    out = []
    while t.op == 'seq':
        out.append(t.args[1])
        t = t.args[0]
    out.reverse()
    return out


def is_next(x):
    return x.op == 'ret' and x.args[0].op == 'ev' and x.args[0].args[0] == 'next'


def analyse(ctx):
    """-> (states, paths, problems, [why undecided])"""
    key = 'burst_typestate'
    if key in ctx.cache:
        return ctx.cache[key]
    rec = main_loop(ctx)
    res = (0, 0, [], 'main loop not recognised')
    if rec is not None:
        try:
            res = run(rec)
        except loops.GiveUp as x:
            res = (0, 0, [], str(x) or 'too many states')
    ctx.cache[key] = res
    return res


def run(rec):
    vars = {k: v for k, v in rec.vars.items() if v[0] is not None}
    trace_ph, _, trace_b = vars[('chans', 'obj:self')]
    trace_b = project(trace_b, {})
    srcs = [v for k, v in vars.items() if k[0] == 'chans' and 'next' in spine(v[2])]
    if len(srcs) != 1:
        raise loops.GiveUp('%d channels with reads' % len(srcs))
    next_b = project(srcs[0][2], {}, ('next',))
    # burst variables: may hold the result of next()
    holders = {}
    changed = True
    while changed:
        changed = False
        for k, (ph, init, body) in vars.items():
            if k[0] not in ('env', 'heap') or ph in holders:
                continue
            ls = loops.leaves(body) | loops.leaves(init)
            if any(is_next(x) for x in ls) or any(x in holders and x is not ph for x in ls):
                holders[ph] = (init, body)
                changed = True
    fresh = {x for ph, (i, b) in holders.items() for x in loops.leaves(b) if is_next(x)}
    fresh |= {a for lf in loops.leaves(trace_b) for ev in events(lf) for a in ev.args[1:] if isinstance(a, T) and is_next(a)}
    if len(fresh) != 1:
        raise loops.GiveUp('%d read sites of bursts' % len(fresh))
    fresh = fresh.pop()
    ex = mk('exof', *fresh.args)
    raised = atom(mk('raises', ex))
    isnone = eq(fresh, NONE)
    # flags
    fl = {}
    for k, (ph, init, body) in vars.items():
        if k[0] in ('env', 'heap') and ph not in holders:
            fl[ph] = (init, body)
    good = set(fl)
    while True:
        drop = {p for p in good for t in fl[p] for x in loops.leaves(t)
                if loops.absval(x) is None and x not in good}
        if not drop:
            break
        good -= drop
    flags = sorted(good, key=lambda t: t.id)
    hold = sorted(holders, key=lambda t: t.id)
    if len(flags) > 14:
        raise loops.GiveUp('%d flags' % len(flags))
    init = []
    for p in flags:
        init.append({loops.absval(x) or 'O' for x in loops.leaves(fl[p][0])})
    for p in hold:
        init.append({loops.absval(x) or 'X' for x in loops.leaves(holders[p][0])})
    start = set(loops.product(init))
    seen, work, paths, probs = set(start), list(start), 0, {}
    nf = len(flags)
    while work:
        st = work.pop()
        env = dict(zip(flags, st[:nf]))
        tok = dict(zip(hold, st[nf:]))
        full = dict(env)
        for p, s in tok.items():
            full[p] = s if s in ('N', 'U') else 'O'
        comp = [fl[p][1] for p in flags] + [holders[p][1] for p in hold] + [next_b, trace_b, rec.stop, raised, isnone]
        comp = tuple(loops.plug(t, full) for t in comp)
        for leaf in expand(comp):
            paths += 1
            if paths > 200000:
                raise loops.GiveUp()
            stop = leaf[-3]
            if stop.op == 'sym' and stop.args[0] == 'brk':
                continue        # left before the body ran
            nread = len(events(leaf[-5]))
            if nread > 1:
                raise loops.GiveUp('several reads in one iteration')
            read = nread == 1 and leaf[-2] is FALSE and leaf[-1] is FALSE
            evs = events(leaf[-4])
            cur = {}
            if read:
                cur['new'] = frozenset()
            for p, s in tok.items():
                if isinstance(s, frozenset):
                    cur[p] = s
            for ev in evs:
                nm = ev.args[0]
                arg = [a for a in ev.args[2:] if isinstance(a, T)][:1]
                arg = arg[0] if arg else None
                t = 'new' if arg is fresh else arg if arg in cur else None
                if t is None or t not in cur:
                    if arg in hold or arg is fresh:
                        probs.setdefault(('C01', '%s is called without a burst' % nm), leaf)
                    else:
                        raise loops.GiveUp('burst argument of %s not recognised' % nm)
                    continue
                s = cur[t]
                if nm in CALS:
                    if 'loc' in s:
                        probs.setdefault(('C01', '%s is applied to a burst after surface_locations used it' % nm), leaf)
                    if nm in s:
                        probs.setdefault(('C01', '%s is applied twice to the same burst' % nm), leaf)
                    cur[t] = s | {nm}
                else:
                    for c in CALS:
                        if c not in s:
                            probs.setdefault(('C01', '%s is called with a burst that %s has not processed' % (nm, c)), leaf)
                    if 'loc' in s:
                        probs.setdefault(('C09', 'the same burst is handed to %s twice' % nm), leaf)
                    cur[t] = s | {'loc'}
            raising = stop.op == 'sym' and stop.args[0] in ('raise', 'return')
            if raising:
                continue
            nxt = []
            for i, p in enumerate(flags):
                x = leaf[i]
                nxt.append(loops.absval(x) or env.get(x, 'O'))
            kept = set()
            for i, p in enumerate(hold):
                x = leaf[nf + i]
                if x is fresh:
                    if read:
                        kept.add('new')
                        nxt.append(cur['new'])
                    else:
                        nxt.append('N')
                elif x in tok:
                    s = cur.get(x, tok[x])
                    kept.add(x)
                    nxt.append(s)
                elif loops.absval(x):
                    nxt.append(loops.absval(x))
                else:
                    raise loops.GiveUp('burst variable set to %s' % show(x, 3))
            for t, s in cur.items():
                if t not in kept and 'loc' not in s:
                    probs.setdefault(('C09', 'a burst that was read is dropped before surface_locations has seen it'), leaf)
            # a located burst that is merely kept in a variable is equivalent to a finished one
            nxt = tuple(nxt)
            if nxt not in seen:
                seen.add(nxt)
                work.append(nxt)
                if len(seen) > 3000:
                    raise loops.GiveUp()
    return (len(seen), paths, sorted(probs), '')


def expand(comp):
    out, seen, stack = [], set(), [comp]
    while stack:
        b = stack.pop()
        if b in seen:
            continue
        seen.add(b)
        if len(seen) > 100000:
            raise loops.GiveUp('too many paths')
        v = top(*b)
        if v is None:
            out.append(b)
            continue
        for val in (True, False):
            stack.append(tuple(assume(cof(x, v)[0 if val else 1], v, val) for x in b))
    return out


def rule(prop, what):
    def burst_typestate(ctx):
        n, paths, probs, why = analyse(ctx)
        r = 'burst typestate'
        if why:
            yield und(r, WHERE, why)
            return
        mine = [p for p in probs if p[0] == prop]
        for p in mine:
            yield bad(r, WHERE, p[1])
        if not mine:
            yield ok(r, WHERE, '%s: %d abstract states, %d paths' % (what, n, paths), n=n)
    return burst_typestate


RULES = {'C01': [rule('C01', 'calibrated exactly once before use')],
         'C09': [rule('C09', 'every burst read is located exactly once')]}
