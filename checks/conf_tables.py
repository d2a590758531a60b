"""Declared parameters of the three parameter files, their options, and the shipped files (C11, C12, C14)."""
import ast, json, os
from sa.run import ok, bad, und
from sa.tables import *

F, I, B = 'float', 'int', 'bool'
RAD = 'math.radians'
# attribute: (name in the file, declared type, conversion, optional, default)
CST = {k: (k + '_cst', F, F, False, None) for k in
       ('c', 'pi', 'semi_major_axis', 'semi_minor_axis', 'earth_radius', 'flat_coeff', 'sec_in_day')}
CHD = {k: (k + '_chd', F, F, False, None) for k in
       ('mean_sat_alt', 'freq_ku', 'pulse_length', 'bw_ku', 'power_tx_ant_ku', 'antenna_gain_ku', 'uso_freq_nom',
        'alt_freq_multiplier', 'prf_sar', 'brf_sar', 'antenna_angles_spacing', 'ptr_width', 'fft_step_freq_ku',
        'ratio_trc_ku')}
CHD.update({
    'n_samples_sar': ('N_samples_sar_chd', I, I, False, None),
    'n_ku_pulses_burst': ('N_ku_pulses_burst_chd', I, I, False, None),
    'antenna_weights': ('antenna_weights_chd', F, F, False, None, (250,)),
    'antenna_angles': ('antenna_angles_chd', F, F, False, None, (250,)),
    'look_angle_mask_min': ('look_angle_mask_min_chd', None, RAD, True, None),
    'look_angle_mask_max': ('look_angle_mask_max_chd', None, RAD, True, None)})
CNF = {k: (k + '_cnf', None, None, False, None) for k in
       ('flag_cal2_correction', 'flag_uso_correction', 'flag_cal1_corrections', 'flag_cal1_intraburst_corrections',
        'surface_focusing_alt', 'flag_postphase_azimuth_processing', 'azimuth_window_width',
        'flag_doppler_range_correction', 'flag_slant_range_correction', 'flag_window_delay_alignment_method',
        'flag_avoid_zeros_in_multilooking', 'flag_surface_weighting', 'zp_fact_range')}
CNF.update({k: (k + '_cnf', None, None, True, None) for k in ('min_lat', 'max_lat', 'min_lon', 'max_lon')})
CNF.update({
    'flag_cal2_table_index': ('flag_cal2_table_index_cnf', I, I, False, None),
    'flag_surface_focusing': ('flag_surface_focusing_cnf', B, B, False, None),
    'flag_stack_masking': ('flag_stack_masking_cnf', B, B, False, None),
    'surface_focusing_lat': ('surface_focusing_lat_cnf', None, RAD, False, None),
    'surface_focusing_lon': ('surface_focusing_lon_cnf', None, RAD, False, None),
    'flag_azimuth_processing_method': ('flag_azimuth_processing_method_cnf', 'AzimuthProcessingMethod',
                                       'AzimuthProcessingMethod', False, None),
    'flag_azimuth_windowing_method': ('flag_azimuth_windowing_method_cnf', 'AzimuthWindowingMethod',
                                      'AzimuthWindowingMethod', False, None),
    'flag_antenna_weighting': ('flag_antenna_weighting_cnf', F, F, False, None),
    'n_looks_stack': ('N_looks_stack_cnf', None, None, False, None),
    'output_format': ('output_format_flag_cnf', 'OutputFormat', 'OutputFormat', True, 'OutputFormat.extended')})
FILES = {'ConstantsFile': ('CST', 'dedop/conf/constants.py', CST, 0),
         'CharacterisationFile': ('CHD', 'dedop/conf/characterization.py', CHD, 1),
         'ConfigurationFile': ('CNF', 'dedop/conf/configuration.py', CNF, 3)}
ENUMS = {'AzimuthWindowingMethod': {'disabled': 'none', 'boxcar': 'boxcar', 'hanning': 'hanning', 'hamming': 'hamming'},
         'AzimuthProcessingMethod': {'approximate': 'approx', 'exact': 'exact'},
         'OutputFormat': {'s3': 'sentinel-3', 'extended': 'extended'}}
STEPS = {'BaseAlgorithm': {'n_looks_stack': None, 'zp_fact_range': None},
         'GeometryCorrectionsAlgorithm': {'flag_doppler_range_correction': True, 'flag_slant_range_correction': True,
                                          'flag_window_delay_alignment_method': 0},
         'MultilookingAlgorithm': {'flag_avoid_zeros_in_multilooking': False},
         'StackMaskingAlgorithm': {'flag_stack_masking': None}}


def declared(ctx, cname):
    """attribute -> descriptor tuple (or UNKNOWN) of a parameter file class"""
    tag, path, table, version = FILES[cname]
    c = ctx.repo.find_class(path, cname) or ctx.repo.class_by_name(cname)
    if c is None:
        return None, None, None
    out = {}
    for attr, e in class_assigns(c).items():
        if not isinstance(e, ast.Call):
            continue
        k = ctx.repo.resolve_expr_class(c.module, e.func)
        if k is None or not any(b.name == 'AuxiliaryParameter' for b in ctx.repo.mro(k)):
            if k is None:
                out[attr] = UNKNOWN
            continue
        init = ctx.repo.find_method(k, '__init__')
        a = call_args(ctx.repo, c.module, e, init) if init else None
        if a is None or k.name not in ('AuxiliaryParameter', 'AuxiliaryParameterArray'):
            out[attr] = UNKNOWN
            continue
        v = {n: value(ctx.repo, c.module, x) for n, x in a.items() if n != 'doc_string'}
        typ = v.get('param_type')
        cast = v.get('cast_type')
        cast = cast if cast is not None else typ
        default = v.get('default_value')
        opt = v.get('optional')
        if opt is not UNKNOWN:
            opt = bool(opt) or default is not None
        d = (v.get('parameter_name'), typ, cast, opt, default)
        if k.name == 'AuxiliaryParameterArray':
            d += (v.get('shape') if not isinstance(v.get('shape'), int) else (v.get('shape'),),)
        out[attr] = d
    return c, out, class_assigns(c)


FIELD = ('name in the file', 'declared type', 'conversion', 'optional', 'default', 'shape')


def same(i, got, want):
    if i in (1, 2) and want is None and got not in (None, UNKNOWN):
        # a stricter declaration than the documented one
        return None if i == 1 or got != RAD else False
    return got == want and type(got) in (type(want), Name)


def uses(ctx, attr):
    for m in ctx.repo.modules.values():
        if m.relpath.startswith('spec/') or m.relpath.startswith('dedop/conf/'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == attr:
                return '%s:%d' % (m.relpath, n.lineno)
    return None


def parameters(which):
    def parameter_table(ctx):
        """declaration table of the parameter files against the documented names, types and defaults"""
        for cname, (tag, path, table, version) in FILES.items():
            c, got, raw = declared(ctx, cname)
            if c is None:
                yield und('declared-parameters', cname, 'class not found')
                continue
            for attr, want in sorted(table.items()):
                where = '%s:%s.%s' % (c.module.relpath, cname, attr)
                if attr not in got:
                    if attr in raw or not plain_body(c) or any(attr in class_assigns(b) for b in ctx.repo.mro(c)):
                        yield und('declared-parameters', where, 'declaration not understood')
                    else:
                        u = uses(ctx, attr)
                        if u and which == 'C11':
                            yield bad('declared-parameters', where, 'parameter %s is used at %s but no longer declared' % (attr, u))
                        else:
                            yield und('declared-parameters', where, 'no longer declared')
                    continue
                d = got[attr]
                if d is UNKNOWN or len(d) != len(want):
                    yield und('declared-parameters', where, 'declaration not understood')
                    continue
                for i, (g, w) in enumerate(zip(d, want)):
                    mine = {'C11': (0, 1, 2, 4, 5), 'C12': (1, 2, 3, 4, 5)}[which]
                    if i not in mine:
                        continue
                    if g is UNKNOWN or (isinstance(g, tuple) and UNKNOWN in g):
                        yield und('declared-parameters', where, FIELD[i] + ' not understood')
                        continue
                    s = same(i, g, w)
                    if s is None:
                        yield und('declared-parameters', where, '%s is %s, was undeclared' % (FIELD[i], g))
                    elif s:
                        yield ok('declared-parameters', where, FIELD[i])
                    else:
                        yield bad('declared-parameters', where, '%s is %r, documented %r' % (FIELD[i], g, w))
            names = {}
            for attr, d in got.items():
                if d is UNKNOWN:
                    continue
                if d[0] in names and d[0] is not UNKNOWN:
                    yield bad('declared-parameters', '%s:%s.%s' % (c.module.relpath, cname, attr),
                              'shares the name %s with %s' % (d[0], names[d[0]]))
                names[d[0]] = attr
    return parameter_table


def options(ctx):
    """option texts of the enumerated parameters"""
    for n, want in ENUMS.items():
        c = ctx.repo.find_class('dedop/conf/enums.py', n) or ctx.repo.class_by_name(n)
        if c is None:
            yield und('options', n, 'class not found')
            continue
        got = enum_values(ctx.repo, c)
        for k, v in want.items():
            where = '%s:%s.%s' % (c.module.relpath, n, k)
            if k not in got:
                yield und('options', where, 'member not found')
            elif got[k] is UNKNOWN:
                yield und('options', where, 'value not understood')
            elif got[k] == v:
                yield ok('options', where)
            else:
                yield bad('options', where, 'option text is %r, documented %r' % (got[k], v))


def step_parameters(ctx):
    """parameters declared by the processing steps: known to the configuration file, documented defaults"""
    c, conf, _ = declared(ctx, 'ConfigurationFile')
    n = 0
    for m in ctx.repo.modules.values():
        if m.relpath.startswith('spec/'):
            continue
        for k in m.classes.values():
            decl = {}
            for d in k.node.decorator_list:
                if isinstance(d, ast.Call):
                    r = ctx.repo.resolve_expr_class(m, d.func)
                    if r is not None and r.name == 'Parameter':
                        a = call_args(ctx.repo, m, d, ctx.repo.find_method(r, '__init__'))
                        if a:
                            decl[value(ctx.repo, m, a['name'])] = value(ctx.repo, m, a.get('default_value'))
            for name, dflt in decl.items():
                where = '%s:%s@%s' % (m.relpath, k.name, name)
                if name is UNKNOWN or c is None:
                    yield und('step-parameters', where, 'name not understood')
                    continue
                n += 1
                if name not in conf and not any(name in b.methods for b in ctx.repo.mro(c)):
                    yield bad('step-parameters', where, 'not a parameter of the configuration file')
                else:
                    yield ok('step-parameters', where, 'known to the configuration file')
                want = STEPS.get(k.name, {})
                if name in want:
                    if dflt is UNKNOWN:
                        yield und('step-parameters', where, 'default not understood')
                    elif dflt == want[name] and type(dflt) is type(want[name]):
                        yield ok('step-parameters', where, 'default')
                    else:
                        yield bad('step-parameters', where, 'default is %r, documented %r' % (dflt, want[name]))


def versions(ctx):
    """supported format versions"""
    for cname, (tag, path, table, version) in FILES.items():
        c, got, raw = declared(ctx, cname)
        if c is None:
            yield und('format-version', cname, 'class not found')
            continue
        for attr, want in (('_fileversion', version), ('_id', tag)):
            where = '%s:%s.%s' % (c.module.relpath, cname, attr)
            e = next((class_assigns(b)[attr] for b in ctx.repo.mro(c) if attr in class_assigns(b)), None)
            v = value(ctx.repo, c.module, e) if e is not None else UNKNOWN
            if v is UNKNOWN:
                yield und('format-version', where, 'not understood')
            elif attr == '_id' or v == want:
                yield ok('format-version', where, str(v))
            else:
                yield und('format-version', where, 'version changed from %r to %r' % (want, v))


def shipped(which):
    def shipped_files(ctx):
        """shipped parameter files: versions accepted by the program, changelog, names known, values convertible"""
        base = os.path.join(ctx.repo.root, 'dedop', 'ui', 'data')
        n = 0
        for folder in sorted(os.listdir(base)) if os.path.isdir(base) else []:
            for cname, (tag, path, table, version) in FILES.items():
                p = os.path.join(base, folder, tag + '.json')
                if not os.path.isfile(p):
                    continue
                where = 'dedop/ui/data/%s/%s.json' % (folder, tag)
                n += 1
                try:
                    d = json.load(open(p))
                except ValueError as x:
                    yield bad('shipped-files', where, 'not valid JSON: %s' % x)
                    continue
                c, got, raw = declared(ctx, cname)
                if c is None:
                    yield und('shipped-files', where, 'class %s not found' % cname)
                    continue
                byname = {v[0]: v for v in got.values() if v is not UNKNOWN}
                vague = any(v is UNKNOWN or UNKNOWN in v for v in got.values()) or not plain_body(c)
                if which == 'C11':
                    for name, item in d.items():
                        if name == '__metainf__':
                            continue
                        if name not in byname:
                            if vague:
                                yield und('shipped-files', where + ':' + name, 'declaration not understood')
                            else:
                                yield bad('shipped-files', where + ':' + name, 'parameter is not known to the program')
                            continue
                        if not isinstance(item, dict) or 'value' not in item:
                            yield bad('shipped-files', where + ':' + name, 'entry has no value')
                            continue
                        v = item['value']
                        typ, cast = byname[name][1:3]
                        if typ in ENUMS:
                            e = ctx.repo.class_by_name(typ)
                            vals = list(enum_values(ctx.repo, e).values()) if e else [v]
                            good = v in vals or UNKNOWN in vals
                        elif typ in ('float', 'int') or cast == RAD:
                            vs = v if isinstance(v, list) else [v]
                            good = all(isinstance(x, (int, float)) for x in vs) or (v is None and byname[name][3])
                        else:
                            good = True
                        if good:
                            yield ok('shipped-files', where + ':' + name)
                        else:
                            yield bad('shipped-files', where + ':' + name, 'value %r is not valid for its declaration' % (v,))
                    for attr, desc in got.items():
                        if desc is UNKNOWN or desc[3] is not False or len(desc) > 5:
                            continue
                        if desc[0] not in d and desc[0] is not UNKNOWN and desc[0] not in OMITTED:
                            yield bad('shipped-files', where + ':' + desc[0], 'mandatory parameter is missing from the shipped file')
                    continue
                meta = d.get('__metainf__', {})
                log = meta.get('changelog', [])
                fv = value(ctx.repo, c.module, raw.get('_fileversion'))
                if fv is UNKNOWN or fv is None:
                    yield und('shipped-version', where, 'supported version not understood')
                elif meta.get('version', -1) == fv:
                    yield ok('shipped-version', where, 'version %r' % fv)
                else:
                    yield bad('shipped-version', where, 'file has version %r, the program accepts %r' % (meta.get('version', -1), fv))
                vs = [e.get('version') for e in log]
                if not vs or max(vs) != meta.get('version') or len(set(vs)) != len(vs):
                    yield bad('shipped-changelog', where, 'changelog versions %r do not lead to version %r' % (vs, meta.get('version')))
                else:
                    yield ok('shipped-changelog', where, 'changelog leads to the version')
                last = {}
                for e in sorted(log, key=lambda e: e.get('version', 0)):
                    for q in e.get('parameters', []):
                        last[q[0]] = q[1]
                        if q[1] not in ('+', '-', '*'):
                            yield bad('shipped-changelog', where + ':' + q[0], 'unknown change %r' % q[1])
                for name, ch in last.items():
                    if (ch == '-') == (name in d):
                        yield bad('shipped-changelog', where + ':' + name,
                                  'last change is %s but the parameter is %s' % (ch, 'present' if name in d else 'absent'))
                    else:
                        yield ok('shipped-changelog', where + ':' + name)
        if n == 0:
            yield und('shipped-files', 'dedop/ui/data', 'no shipped files found')
    return shipped_files


OMITTED = {'antenna_angles_spacing_chd'}

RULES = {'C11': [parameters('C11'), options, step_parameters, shipped('C11')],
         'C12': [parameters('C12'), options, versions],
         'C13': [step_parameters],
         'C14': [versions, shipped('C14')]}
