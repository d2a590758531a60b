"""Check driver: collects the obligations of one property, decides them on /repo's source,
writes evidence and reports violations."""
import ast
import contextlib
import importlib
import json
import os
import sys
import time
import traceback

from .terms import *
from .source import Repo
from .interp import Interp, Unsupported, State, unk
from .compare import compare, subterms, EQUAL, DIFF, UNKNOWN

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

IGNORED_CHANS = ('log', 'x:print', 'warn')


class Obl:
    """one decided obligation"""
    __slots__ = ('rule', 'construct', 'status', 'detail', 'n', 'known')

    def __init__(self, rule, construct, status, detail='', n=1, known=None):
        self.rule, self.construct, self.status, self.detail, self.n, self.known = \
            rule, construct, status, detail, n, known


def ok(rule, construct, detail='', n=1):
    return Obl(rule, construct, 'ok', detail, n)


def bad(rule, construct, detail=''):
    return Obl(rule, construct, 'violation', detail)


def und(rule, construct, detail=''):
    return Obl(rule, construct, 'undecided', detail)


class AnchorMissing(Exception):
    pass


class SpecEntry:
    def __init__(self, file, node, module):
        self.file, self.node, self.module = file, node, module
        self.name = node.name
        d = [x for x in node.decorator_list if isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'spec'][0]
        self.target = ast.literal_eval(d.args[0])
        kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
        self.props = kw.pop('props', '').split()
        self.pure = kw.pop('pure', '').split()
        self.opaque = kw.pop('opaque', '').split()
        self.out = kw.pop('out', None)          # restrict to these slots
        self.skip = kw.pop('skip', '').split()  # slots not compared
        self.slots = kw.pop('slots', {})        # extra property tags per slot
        self.types = kw.pop('types', {})
        self.known = kw.pop('known', None)      # this function states a recorded defect of entry `known`
        self.new = kw.pop('new', '').split()
        self.unroll = kw.pop('unroll', 64)
        self.args = kw.pop('args', {})
        self.ignore = kw.pop('ignore', '').split()
        self.scratch = kw.pop('scratch', '').split()
        self.faults = kw.pop('faults', False)   # every call may fail: what has been done by then is compared as well
        self.prints = kw.pop('prints', False)  # what is printed is compared too
        self.note = kw.pop('note', '')
        self.focus = kw.pop('focus', {})      # property -> names that concern it (triage of located differences)
        self.onraise = kw.pop('onraise', self.target.startswith(LASTING) and not self.target.endswith('__init__'))
        # compare final state on exceptional exits too: of objects that are used again after a failure
        assert not kw, kw


LASTING = tuple('dedop/' + x for x in ('conf/', 'util/', 'webapi/', 'data/', 'model/', 'ui/workspace', 'proc/sar/processor'))
TOTAL = 540          # seconds for one property; what is not decided by then stays undecided


@contextlib.contextmanager
def budget(seconds):
    set_budget(seconds)
    try:
        yield
    finally:
        set_budget(None)


class Ctx:
    def __init__(self, repo_root=REPO, overrides=None):
        self.started = time.monotonic()
        self.repo = Repo(repo_root, overrides) if overrides else Repo(repo_root)
        self.entries = []
        self.cache = {}
        self.funcs = set()
        self.sites = 0
        self.load_specs()

    def load_specs(self):
        d = os.path.join(VERIF, 'spec')
        for f in sorted(os.listdir(d)):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            text = open(p).read()
            mod = self.repo.add_text('spec_' + f[:-3], 'spec/' + f, text)
            mod.missing = self.check_imports(mod)
            for n in mod.tree.body:
                if isinstance(n, ast.FunctionDef) and any(
                        isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'spec' for x in n.decorator_list):
                    self.entries.append(SpecEntry(f, n, mod))

    def check_imports(self, mod):
        """names a reference imports from the repository must exist there"""
        out = {}
        for n in mod.tree.body:
            if isinstance(n, ast.ImportFrom) and (n.module or '').startswith('dedop'):
                for a in n.names:
                    if a.name == '*':
                        continue
                    r = self.repo.resolve(mod, a.asname or a.name)
                    if not r or r[0] not in ('class', 'func', 'var', 'const', 'mod', 'global'):
                        out[a.asname or a.name] = '%s.%s (imported by %s)' % (n.module, a.name, mod.relpath)
        return out

    # ---------------------------------------------------------------- anchors
    def find(self, target):
        """'path:Class.method' or 'path:function' -> (Func, Class or None)"""
        path, q = target.split(':')
        mod = self.repo.module(path)
        if mod is None:
            raise AnchorMissing('module %s' % path)
        parts = q.split('.')
        if len(parts) == 1:
            r = self.repo.resolve(mod, parts[0])
            if r and r[0] == 'func':
                return r[1], None
            raise AnchorMissing(target)
        r = self.repo.resolve(mod, parts[0])
        if not r or r[0] != 'class':
            raise AnchorMissing('class %s' % target)
        cls = r[1]
        while len(parts) > 2:
            cls = next((c.nested[parts[1]] for c in self.repo.mro(cls) if parts[1] in c.nested), None)
            if cls is None:
                raise AnchorMissing('class %s' % target)
            parts = [parts[1]] + parts[2:]
        if parts[1].endswith('='):
            m = self.repo.find_setter(cls, parts[1][:-1])
        elif parts[1].endswith('~'):
            m = next((c.deleters[parts[1][:-1]] for c in self.repo.mro(cls) if parts[1][:-1] in c.deleters), None)
        else:
            m = self.repo.find_method(cls, parts[1])
        if m is None:
            raise AnchorMissing(target)
        return m, cls

    def term_types(self, types):
        out = {}
        for k, v in types.items():
            path, c = v.split(':')
            r = self.repo.resolve(self.repo.module(path), c)
            if not r or r[0] != 'class':
                raise AnchorMissing(v)
            out[parse_term(k)] = r[1]
        return out

    def analyse(self, e, which):
        """which: 'code' or 'spec' -> Summary"""
        key = (e.file, e.name, which)
        if key in self.cache:
            return self.cache[key]
        types = self.term_types(e.types)
        it = Interp(self.repo, pure=e.pure, opaque=e.opaque, types=types, inline_new=e.new, unroll=e.unroll)
        it.prints = e.prints
        it.faults = e.faults
        args = {k: parse_term(v) for k, v in e.args.items()}
        if which == 'code':
            f, cls = self.find(e.target)
            s = it.run(f, args={k: v for k, v in args.items()}, selfcls=cls)
        else:
            f = e.module.funcs[e.name]
            vals = {}
            _, cls = self.find(e.target)
            tf, _ = self.find(e.target)
            pos = [a.arg for a in f.node.args.args]
            tpos = [a.arg for a in tf.node.args.posonlyargs + tf.node.args.args]
            off = 0
            if cls is not None and not tf.is_static:
                vals[pos[0]] = sym('cls') if tf.is_classmethod else sym('self')
                off = 1
            for i, p in enumerate(pos[off:]):
                vals[p] = args.get(tpos[off + i] if off + i < len(tpos) else None, args.get(p, sym('arg%d' % i)))
            if cls is not None and not tf.is_static:
                it.types.setdefault(vals[pos[0]], cls)
            if off:
                it.super_ctx = (tf.cls or cls, vals[pos[0]])
            s = it.run(f, args=vals)
        self.cache[key] = s
        if which == 'code':
            self.funcs |= set(it.nfuncs)
            self.sites += it.sites
        return s

    def code(self, e):
        return self.analyse(e, 'code')

    def spec(self, e):
        return self.analyse(e, 'spec')

    # ---------------------------------------------------------------- comparison of one entry
    def compare_entry(self, e, prop=None):
        """list of (slot, status, detail)"""
        key = ('cmp', e.file, e.name)
        if e.module.missing:
            for n in ast.walk(e.node):
                if isinstance(n, ast.Name) and n.id in e.module.missing:
                    raise AnchorMissing(e.module.missing[n.id])
        if key not in self.cache:
            with self.budget(60):
                try:
                    self.cache[key] = self._compare_entry(e)
                except AnchorMissing:
                    raise
                except Exception as x:
                    self.cache[key] = [('*', UNKNOWN, 'not analysable: %s %s' % (type(x).__name__, x))]
        return self.cache[key]

    def budget(self, seconds):
        return budget(min(seconds, TOTAL - (time.monotonic() - self.started)))

    def _compare_entry(self, e):
        f, _ = self.find(e.target)
        try:
            c = self.code(e)
        except Unsupported as x:
            return [('*', UNKNOWN, 'not analysable: %s' % x)]
        except RecursionError:
            return [('*', UNKNOWN, 'not analysable: recursion')]
        s = self.spec(e)
        out = []

        def want(slot):
            if e.out is not None and slot not in e.out:
                return False
            if slot in e.skip:
                return False
            return True

        def one(slot, ct, st):
            r = compare(ct, st)
            d = ''
            if r[0] != EQUAL:
                d = r[1]
                if r[2] is not None:
                    d += ' found %s, expected %s' % (show(r[2], 6)[:300], show(r[3], 6)[:300])
            st0 = r[0]
            if st0 == UNKNOWN:
                found = ops(ct)
                if 'exhausted' in found and not any(o.startswith('x:') for o in found - ops(st)):
                    st0, d = DIFF, 'goes through a generator a second time: ' + d
            out.append((slot, st0, d))
        for name, ct, st in self.defaults(e, f):
            if want('default:' + name):
                one('default:' + name, ct, st)
        if want('ret'):
            one('ret', c.outcome(), s.outcome())
        ks = [k for k in s.written()]
        for k in ks:
            slot = slotname(k)
            if want(slot):
                one(slot, c.attr(*k, onraise=e.onraise), s.attr(*k, onraise=e.onraise))
        for k in c.written():
            if k not in ks:
                slot = slotname(k)
                base = k[0]
                if not want(slot) or k[1] in e.scratch:
                    continue
                if base is sym('self'):
                    # additional attribute of the object itself: scratch, unless the operations of the class rely on it
                    if k[1] not in self.relied_on(e.target):
                        continue
                if root(base).op == 'obj' or base.op in ('obj', 'new'):
                    continue
                ct = c.attr(*k, onraise=e.onraise)
                if ct is c.it.loc_get_initial(k):
                    continue
                out.append((slot, DIFF if not any(o.startswith('x:') for o in ops(ct)) else UNKNOWN,
                            'unexpected change of %s to %s' % (slot, show(ct, 6)[:300])))
        cc = set(c.all_cells()) | set(s.all_cells())
        for t in sorted(cc, key=lambda t: t.id):
            slot = 'content:' + show(t, 5)
            if want(slot):
                one(slot, c.cell(t, e.onraise), s.cell(t, e.onraise))
                if out[-1][1] == UNKNOWN and t not in s.all_cells() and not any(
                        o.startswith('x:') for o in ops(c.cell(t, e.onraise))):
                    out[-1] = (slot, DIFF, 'changes ' + show(t, 4) + ', which belongs to the caller: ' + out[-1][2])
        sch = s.all_chans()
        for ch in sorted(set(c.all_chans()) | set(sch)):
            if (ch.startswith(IGNORED_CHANS) and not (ch == 'warn' and ch in sch)) or ch in e.ignore:
                continue
            slot = 'effects:' + ch
            if not want(slot):
                continue
            ct, st = c.chan(ch), s.chan(ch)
            one(slot, ct, st)
        return out

    def relied_on(self, target):
        """attributes of the object that the references of this class (and its bases and subclasses) read"""
        _, cls = self.find(target)
        key = ('relied', cls)
        if key not in self.cache:
            out = set()
            for e in self.entries:
                if e.known or '.' not in e.target.split(':')[1]:
                    continue
                try:
                    _, c = self.find(e.target)
                except AnchorMissing:
                    continue
                if c is None or cls is None or not (c in self.repo.mro(cls) or cls in self.repo.mro(c)):
                    continue
                first = (e.node.args.posonlyargs + e.node.args.args)[:1]
                if not first:
                    continue
                for n in ast.walk(e.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) \
                            and n.value.id == first[0].arg:
                        out.add(n.attr)
                if cls is not None:
                    out |= self.repo.step_params(cls)
            self.cache[key] = out
        return self.cache[key]

    def defaults(self, e, f):
        """default values of the parameters for which the reference states one"""
        g = e.module.funcs[e.name]
        a, b = f.node.args, g.node.args
        pa = [p.arg for p in a.posonlyargs + a.args]
        pb = [p.arg for p in b.posonlyargs + b.args]
        da = dict(zip(pa[len(pa) - len(a.defaults):], a.defaults))
        db = dict(zip(pb[len(pb) - len(b.defaults):], b.defaults))
        ka = {p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if len(pa) != len(pb) and not (a.vararg or b.vararg):
            return []
        it = Interp(self.repo)
        it.st, it.exits, it.frames, it.trystack = State(), [], [], []
        it.st.pc = TRUE
        out = []

        def val(d, m):
            if d is None:
                return UNDEF
            try:
                return it.deref(it.eval_in(d, m))
            except Unsupported:
                return unk('default')
        for i, p in enumerate(pb):
            if p in db:
                q = pa[i] if i < len(pa) else p
                out.append((q, val(da.get(q, ka.get(q)), f.module), val(db[p], g.module)))
        for p, d in zip(b.kwonlyargs, b.kw_defaults):
            if d is not None:
                out.append((p.arg, val(ka.get(p.arg, da.get(p.arg)), f.module), val(d, g.module)))
        return out

    def delta(self, e):
        """names (calls, attributes, constants) used by only one of code and reference"""
        key = ('delta', e.file, e.name)
        if key not in self.cache:
            def toks(s):
                out = {}
                ts = [s.outcome()] + [s.attr(*k) for k in s.written()] + [s.chan(c) for c in s.all_chans()
                                                                          if not c.startswith(IGNORED_CHANS)]
                seen = {}
                for t in ts:
                    subterms(t, seen)
                for x in seen:
                    if x.op == 'ev':
                        out['%s/%d' % (x.args[0], 0)] = 1
                    elif x.op == 'attr':
                        out['.' + x.args[1]] = 1
                return set(out)
            c, s = toks(self.code(e)), toks(self.spec(e))
            self.cache[key] = {t.split('/')[0].lstrip('.') for t in c ^ s}
        return self.cache[key]

    def entry(self, name):
        for e in self.entries:
            if e.name == name:
                return e
        raise KeyError(name)


def ops(t):
    return {x.op for x in subterms(t)}


def root(t):
    while t.op in ('attr', 'select') or (t.op == 'ret' and False):
        t = t.args[0]
    return t


def slotname(k):
    return '%s.%s' % (show(k[0], 5), k[1])


def parse_term(s):
    """'arg0[-1].x' style names used in spec declarations"""
    e = ast.parse(s, mode='eval').body

    def rec(e):
        if isinstance(e, ast.Name):
            return sym(e.id)
        if isinstance(e, ast.Attribute):
            return mk('attr', rec(e.value), e.attr)
        if isinstance(e, ast.Constant):
            if e.value is None:
                return NONE
            if isinstance(e.value, (bool, int, float)):
                return num(e.value)
            return string(e.value)
        if isinstance(e, ast.Subscript):
            return app('select', rec(e.value), idx(rec(e.slice)))
        if isinstance(e, ast.UnaryOp):
            return neg(rec(e.operand))
        raise ValueError(s)
    return rec(e)


# -------------------------------------------------------------------- property runs

def ref_obligations(ctx, prop):
    out = []
    for e in ctx.entries:
        if e.known or (prop not in e.props and not any(prop in v.split() for v in e.slots.values())):
            continue
        try:
            res = ctx.compare_entry(e)
        except AnchorMissing as x:
            out.append(und('reference ' + e.name, e.target, 'anchor not found: %s' % x))
            continue
        for slot, st, det in res:
            tags = e.slots.get(slot)
            if tags is not None and prop not in tags.split() and prop not in e.props:
                continue
            if prop not in e.props and tags is None:
                continue
            construct = '%s [%s]' % (e.target, slot)
            if st == EQUAL:
                out.append(ok('reference ' + e.name, construct))
            elif st == UNKNOWN:
                out.append(und('reference ' + e.name, construct, det))
            else:
                o = bad('reference ' + e.name, construct, det)
                if prop in e.focus:
                    d = ctx.delta(e)
                    if d and not d & set(e.focus[prop].split()):
                        o = und('reference ' + e.name, construct, 'the difference concerns %s' % ', '.join(sorted(d)))
                for k in ctx.entries:
                    if k.known == e.name:
                        for s2, st2, _ in ctx.compare_entry(k):
                            if s2 == slot and st2 == EQUAL:
                                o.status = 'known'
                                o.known = k.note
                out.append(o)
    return out


def load_rules():
    sys.path.insert(0, VERIF)
    rules = {}
    d = os.path.join(VERIF, 'checks')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            m = importlib.import_module('checks.' + f[:-3])
            for p, fns in getattr(m, 'RULES', {}).items():
                rules.setdefault(p, []).extend(fns)
    return rules


def guard(fn, ctx):
    """a rule that meets source it cannot analyse leaves its obligation undecided"""
    try:
        with ctx.budget(240):
            return list(fn(ctx))
    except AnchorMissing as x:
        return [und(fn.__name__, '-', 'anchor not found: %s' % x)]
    except Unsupported as x:
        return [und(fn.__name__, '-', 'not analysable: %s' % x)]
    except Exception as x:
        return [und(fn.__name__, '-', 'not analysable: %s %s' % (type(x).__name__, x))]


def run_property(prop, tier='quick', ctx=None):
    ctx = ctx or Ctx()
    obls = ref_obligations(ctx, prop)
    for fn in load_rules().get(prop, []):
        obls.extend(guard(fn, ctx))
    return ctx, obls


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def main(argv):
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    t0 = time.time()
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    try:
        ctx, obls = run_property(prop, tier)
    except AnchorMissing as x:
        print('ERROR property=%s anchor not found: %s' % (prop, x))
        return 2
    mins = json.load(open(os.path.join(VERIF, 'spec', 'minimum.json')))
    total = sum(o.n for o in obls)
    decided = sum(o.n for o in obls if o.status != 'undecided')
    viol = [o for o in obls if o.status == 'violation']
    kf = {(k['property'], k['rule'], k['construct']) for k in known_findings()['findings']}
    knowns = []
    for o in obls:
        # a recorded finding: listed in the file, and the code does exactly what the recorded reference states
        if o.status == 'known':
            if (prop, o.rule, o.construct) in kf:
                knowns.append(o)
            else:
                o.status = 'violation'
                viol.append(o)
    anchors = [o.detail for o in obls if o.status == 'undecided' and 'anchor not found' in o.detail]
    if not viol and (total < mins.get(prop, 1) or (anchors and not decided)):
        print('ERROR property=%s only %d of %d obligations could be decided, at least %d expected. %s' % (
            prop, decided, total, mins.get(prop, 1), '; '.join(anchors[:3])))
        return 2
    undec = [o for o in obls if o.status == 'undecided']
    extra = {}
    if tier == 'thorough':
        from . import sensitivity
        extra = sensitivity.run(prop, ctx)
    rules = {}
    for o in obls:
        r = rules.setdefault(o.rule, {'ok': 0, 'violation': 0, 'undecided': 0, 'known': 0})
        r[o.status] += o.n
    evidence = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'translation_validation',
        'coverage': dict({
            'programs': len({o.construct.split(' [')[0] for o in obls}),
            'disagreements_checked': total,
            'samples': [{'rule': o.rule, 'construct': o.construct, 'status': o.status} for o in obls[:12]],
            'obligations': total,
            'discharged': sum(o.n for o in obls if o.status == 'ok'),
            'undecided': [{'rule': o.rule, 'construct': o.construct, 'why': o.detail[:300]} for o in undec],
            'functions_analysed': sorted(ctx.funcs),
            'effect_sites_analysed': ctx.sites,
            'rules': rules,
            'explanation': 'Static: value graphs (gated SSA, hash-consed normal forms) of the listed functions are '
                           'computed from /repo source and compared with the reference graphs in /verif/spec, and '
                           'dataflow rules of /verif/checks are applied; nothing of /repo is executed.',
        }, **extra),
        'wall_s': round(time.time() - t0, 3),
        'violations': [{'rule': o.rule, 'construct': o.construct, 'detail': o.detail} for o in viol],
        'assumptions': ['external libraries behave as documented', 'attribute and method names resolve statically as '
                        'modelled in sa/interp.py; floating point arithmetic is treated as real arithmetic'],
    }
    json.dump(evidence, open(os.path.join(ev_dir, prop + '.json'), 'w'), indent=1)
    for o in knowns:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o.construct, o.known or o.detail))
    if viol:
        rp = os.path.join(ev_dir, prop + '.violation.txt')
        with open(rp, 'w') as fh:
            for o in viol:
                fh.write('rule: %s\nconstruct: %s\n%s\n\n' % (o.rule, o.construct, o.detail))
        for o in viol[:12]:
            print('  %s: %s: %s' % (o.rule, o.construct, o.detail[:700]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('property=%s held: %d obligations, %d discharged, %d undecided, %.1fs' % (
        prop, total, evidence['coverage']['discharged'], len(undec), time.time() - t0))
    if '-v' in argv:
        for o in undec:
            print('  undecided %s %s: %s' % (o.rule, o.construct, o.detail[:700]))
    return 0
