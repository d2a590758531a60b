"""Product tables: what each writer declares and what it writes (C05, C06, C07).

The constructor of each writer is interpreted; the content of its two declaration tables afterwards is the
declaration.  The arguments that reach the record writer of the base class are what is written."""
import json
import os
from sa.run import ok, bad, und
from sa.terms import *
from sa.interp import Interp, Unsupported
from sa.compare import compare, EQUAL, DIFF, subterms
from sa.tables import enum_values

D = 'dedop/data/output/'
WRITERS = {'L1BWriter': ('l1b_writer.py', 'record_l1b_s3'),
           'L1BWriterExtended': ('l1b_writer.py', 'record_l1b_extended'),
           'L1BSWriter': ('l1bs_writer.py', 'record_l1bs')}
DTYPES = {'float64': 'f8', 'float': 'f8', 'double': 'f8', 'float32': 'f4', 'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8',
          'int': 'i8', 'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8', 'f8': 'f8', 'f4': 'f4', 'i1': 'i1', 'i2': 'i2',
          'i4': 'i4', 'i8': 'i8', 'u1': 'u1', 'u2': 'u2', 'u4': 'u4', 'u8': 'u8'}
# fields of a surface that hold one value per look or sample (1) or per look and sample (2)
RANK = {'waveform_multilooked': 1, 'beam_angles_surf': 1, 'look_angles_surf': 1, 'beam_angles_start_stop': 1,
        'stack_mask_vector_start_stop': 1, 'sigma0_scaling_factor_beam': 1, 'beams_range_compr_iq': 2, 'stack_mask_vector': 1,
        'doppler_angles_surf': 1, 'pointing_angles_surf': 1, 'range_index_surf': 1, 'beams_range_compr': 2, 'stack_mask': 2,
        'beams_geo_corr': 2, 'beams_surf': 2, 'look_angles_start_stop': 1}
REDUCE = ('amax', 'max', 'amin', 'min', 'mean', 'sum', 'std', 'len')


class NotUnderstood(Exception):
    pass


def fname(ctx, t):
    """name in the file of an enumeration member or text used as variable or dimension name"""
    if t.op == 'str':
        return t.args[0]
    if t.op == 'enum':
        cls, mem = t.args[0].split('.')[-2:]
        for m in ctx.repo.modules.values():
            c = m.classes.get(cls)
            if c is not None:
                v = enum_values(ctx.repo, c).get(mem)
                if isinstance(v, str) and v != '<?>':
                    return v
    raise NotUnderstood('name %s' % show(t, 3))


def const(ctx, t):
    if t.op == 'num':
        x = t.args[0]
        return int(x) if x.denominator == 1 else float(x)
    if t.op in ('str', 'bytes'):
        return t.args[0]
    if t.op == 'none':
        return None
    if t.op in ('tuple', 'list'):
        return [const(ctx, a) for a in t.args]
    if t.op == 'enum':
        return fname(ctx, t)
    raise NotUnderstood(show(t, 4))


def pairs(t):
    if t.op != 'dict':
        raise NotUnderstood('table %s' % show(t, 3)[:200])
    return [(t.args[i], t.args[i + 1]) for i in range(0, len(t.args), 2)]


def declared(ctx, w):
    """(dimensions: name -> size term, variables: name -> {dtype, dims, attrs})"""
    key = ('declared', w)
    if key not in ctx.cache:
        f, cls = ctx.find(D + '%s:%s.__init__' % (WRITERS[w][0], w))
        it = Interp(ctx.repo)
        with ctx.budget(60):
            s = it.run(f, selfcls=cls)
        ctx.funcs |= set(it.nfuncs)
        ctx.sites += it.sites
        dims = {}
        for k, v in pairs(s.attr(sym('self'), '_dimensions')):
            dims[fname(ctx, k)] = v
        out = {}
        for k, v in pairs(s.attr(sym('self'), '_variables')):
            a = {}
            for kk, vv in pairs(v):
                a[const(ctx, kk)] = vv
            n = fname(ctx, k)
            if n in out:
                out[n] = dict(out[n], twice=True)
                continue
            dt = a.pop('data_type', None)
            dd = a.pop('dimensions', None)
            if dt is None or dd is None or dt.op not in ('sym', 'str') or DTYPES.get(str(dt.args[0])) is None:
                raise NotUnderstood('type of %s' % n)
            out[n] = {'dtype': DTYPES[str(dt.args[0])], 'dims': [fname(ctx, x) for x in dd.args],
                      'attrs': {k2: const(ctx, v2) for k2, v2 in a.items() if k2 not in ('comment', 'properties')},
                      'props': a.get('properties')}
        ctx.cache[key] = (dims, out)
    return ctx.cache[key]


def events(t):
    """the dictionary handed to the base class in a trace with exactly one such call, else None"""
    if t.op == 'ite':
        a, b = events(t.args[1]), events(t.args[2])
        if a is None or b is None:
            return None
        return ite(atom(t.args[0]), a, b)
    if t.op == 'seq' and t.args[0].op == 'eps':
        return events(t.args[1])
    if t.op == 'ev' and t.args[0] == 'write_record' and len(t.args) == 3:
        return t.args[2]
    return None


def keys_of(d):
    if d.op == 'ite':
        return keys_of(d.args[1]) | keys_of(d.args[2])
    return {k.args[0] for k, _ in pairs(d) if k.op == 'str'}


def item(d, k):
    if d.op == 'ite':
        return ite(atom(d.args[0]), item(d.args[1], k), item(d.args[2], k))
    for kk, v in pairs(d):
        if kk.op == 'str' and kk.args[0] == k:
            return v
    return NONE


def written(ctx, w, which):
    e = ctx.entry(WRITERS[w][1])
    s = ctx.analyse(e, which)
    chans = [c for c in s.all_chans() if c == 'obj:self']
    if not chans:
        return None
    t = s.chan('obj:self')
    return events(t)


def guarded(fn):
    def run(ctx):
        for w in WRITERS:
            where = '%s%s:%s' % (D, WRITERS[w][0], w)
            try:
                yield from fn(ctx, w, where)
            except (NotUnderstood, Unsupported) as x:
                yield und(fn.__name__, where, 'not understood: %s' % x)
    run.__name__ = fn.__name__
    run.__doc__ = fn.__doc__
    return run


@guarded
def declaration(ctx, w, where):
    """each variable and dimension is declared with the name, type, dimensions, scale, offset, fill value and units of the
    product specification"""
    ref = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'products.json')))[w]
    dims, vs = declared(ctx, w)
    for n, size in ref['dimensions'].items():
        c = '%s dimension %s' % (where, n)
        if n not in dims:
            yield bad('declaration', c, 'not declared')
        elif show(dims[n], 6) != size:
            yield bad('declaration', c, 'size %s instead of %s' % (show(dims[n], 6), size))
        else:
            yield ok('declaration', c)
    for n, r in ref['variables'].items():
        c = '%s variable %s' % (where, n)
        g = vs.get(n)
        if g is None:
            yield bad('declaration', c, 'not declared')
            continue
        errs = []
        if g['dtype'] != r['dtype']:
            errs.append('type %s instead of %s' % (g['dtype'], r['dtype']))
        if g['dims'] != r['dims']:
            errs.append('dimensions %s instead of %s' % (g['dims'], r['dims']))
        for k in sorted(set(r['attrs']) | set(g['attrs'])):
            if r['attrs'].get(k) != g['attrs'].get(k):
                errs.append('%s %r instead of %r' % (k, g['attrs'].get(k), r['attrs'].get(k)))
        yield bad('declaration', c, '; '.join(errs)) if errs else ok('declaration', c)


@guarded
def consistency(ctx, w, where):
    """what is written is declared, with fitting dimensions; fill values fit the type; dimensions are declared;
    a name is declared once"""
    dims, vs = declared(ctx, w)
    for n, g in vs.items():
        c = '%s variable %s' % (where, n)
        miss = [x for x in g['dims'] if x not in dims]
        if g.get('twice'):
            yield bad('consistency', c, 'declared twice under this name')
        elif miss:
            yield bad('consistency', c, 'uses undeclared dimension %s' % ', '.join(miss))
        elif not g['dims'] or dims[g['dims'][0]] is not NONE or any(dims[x] is NONE for x in g['dims'][1:]):
            yield bad('consistency', c, 'its first dimension is not the record dimension')
        elif not fits(g['attrs'].get('fill_value'), g['dtype']):
            yield bad('consistency', c, 'fill value %r does not fit type %s' % (g['attrs'].get('fill_value'), g['dtype']))
        else:
            yield ok('consistency', c)
    d = written(ctx, w, 'code')
    if d is None:
        yield und('consistency', where + '.write_record', 'record not understood')
        return
    for k in sorted(keys_of(d)):
        c = '%s.write_record %s' % (where, k)
        v = item(d, k)
        if k not in vs:
            yield bad('consistency', c, 'written but not declared')
            continue
        if v is NONE:
            yield ok('consistency', c)
            continue
        r = rank(v)
        if r is not None and len(vs[k]['dims']) != 1 + r:
            yield bad('consistency', c, 'value has %d dimensions besides the record, declared %d' % (r, len(vs[k]['dims']) - 1))
        else:
            yield ok('consistency', c)


def fits(v, dt):
    if v is None:
        return True
    if dt[0] == 'f':
        return isinstance(v, (int, float))
    bits = 8 * int(dt[1])
    if not isinstance(v, int):
        return False
    if dt[0] == 'u':
        return 0 <= v < 2 ** bits
    return -2 ** (bits - 1) <= v < 2 ** (bits - 1)


def rank(t):
    if t.op in REDUCE and len(t.args) == 1:
        return 0
    if t.op == 'attr':
        return RANK.get(t.args[1], 0)
    if t.op in ('num', 'str', 'none', 'sym', 'enum', 'true', 'false'):
        return 0
    if t.op in ('select', 'm:dot', 'dot', 'transpose') or t.op.startswith('x:'):
        return None
    r = 0
    for c in children(t):
        x = rank(c)
        if x is None:
            return None
        r = max(r, x)
    return r


@guarded
def one_record(ctx, w, where):
    """write_record of the product hands exactly one record to the base class on every path"""
    d = written(ctx, w, 'code')
    if d is None:
        e = ctx.entry(WRITERS[w][1])
        for slot, st, det in ctx.compare_entry(e):
            if slot == 'effects:obj:self' and st == DIFF:
                yield bad('one-record', where + '.write_record', det)
                return
        yield und('one-record', where + '.write_record', 'not exactly one call of the record writer')
    else:
        yield ok('one-record', where + '.write_record')


@guarded
def provenance(ctx, w, where):
    """each variable of the record has the value of the reference record (not written = None)"""
    c, s = written(ctx, w, 'code'), written(ctx, w, 'spec')
    if c is None or s is None:
        yield und('provenance', where + '.write_record', 'record not understood')
        return
    for k in sorted(keys_of(c) | keys_of(s)):
        r = compare(item(c, k), item(s, k))
        con = '%s.write_record %s' % (where, k)
        if r[0] == EQUAL:
            yield ok('provenance', con)
        else:
            d = r[1]
            if r[2] is not None:
                d += ' found %s, expected %s' % (show(r[2], 6)[:300], show(r[3], 6)[:300])
            yield (bad if r[0] == DIFF else und)('provenance', con, d)


ANALYSED = ('time', 'lat', 'lon', 'i2q2_meas_ku', 'scale_factor_ku')


def analysed_names(ctx):
    """the variables that product inspection reads are declared by both L1B writers, with units and calendar for the time"""
    out = []
    for w in ('L1BWriter', 'L1BWriterExtended'):
        con = D + '%s:%s.__init__' % (WRITERS[w][0], w)
        try:
            dims, vars_ = declared(ctx, w)
        except (NotUnderstood, Unsupported) as x:
            out.append(und('inspected variables are declared', con, str(x)))
            continue
        for n in ANALYSED:
            name = n + '_l1b_echo_sar_ku'
            if name not in vars_:
                out.append(bad('inspected variables are declared', '%s: %s' % (con, name), 'product inspection reads it, the writer does not declare it'))
                continue
            missing = [a for a in ('units', 'calendar') if n == 'time' and a not in vars_[name]['attrs']]
            if missing:
                out.append(bad('inspected variables are declared', '%s: %s' % (con, name), 'no ' + ', '.join(missing)))
                continue
            nd = len(vars_[name]['dims'])
            if nd != (2 if n == 'i2q2_meas_ku' else 1):
                out.append(bad('inspected variables are declared', '%s: %s' % (con, name), 'has %d dimensions' % nd))
                continue
            out.append(ok('inspected variables are declared', '%s: %s' % (con, name)))
    return out


RULES = {'C27': [analysed_names], 'C05': [one_record], 'C06': [declaration, consistency], 'C07': [provenance, declaration]}
