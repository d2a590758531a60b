"""Vocabulary of foreign operations: which are pure, which are effects, and their normal names."""
from .terms import *
from .terms import _slice
import re

REFLIKE = {'sym', 'attr', 'select', 'ret', 'ph', 'obj', 'global', 'kw', 'mu', 'key', 'modvar', 'cellref'}

EXC_PARENT = {
    'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'EOFError': 'Exception', 'ImportError': 'Exception',
    'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'Exception',
    'OSError': 'Exception', 'FileExistsError': 'OSError', 'FileNotFoundError': 'OSError', 'PermissionError': 'OSError',
    'IsADirectoryError': 'OSError', 'NotADirectoryError': 'OSError', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception', 'TypeError': 'Exception',
    'ValueError': 'Exception', 'UnicodeError': 'ValueError', 'Warning': 'Exception', 'UserWarning': 'Warning',
    'RuntimeWarning': 'Warning', 'CalledProcessError': 'SubprocessError', 'SubprocessError': 'Exception',
    'JSONDecodeError': 'ValueError', 'OptimizeWarning': 'UserWarning', 'Error': 'OSError', 'TimeoutExpired': 'SubprocessError',
    'DeprecationWarning': 'Warning', 'FutureWarning': 'Warning', 'MemoryError': 'Exception', 'TimeoutError': 'OSError',
    'ModuleNotFoundError': 'ImportError', 'ConnectionError': 'OSError', 'InterruptedError': 'OSError',
    'NotADirectoryError': 'OSError', 'IOError': 'Exception', 'EnvironmentError': 'Exception', 'UnicodeDecodeError': 'UnicodeError',
}

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'min', 'max', 'abs', 'sum', 'int', 'float', 'str', 'bool', 'list', 'tuple',
            'dict', 'set', 'sorted', 'reversed', 'map', 'filter', 'any', 'all', 'iter', 'next', 'open', 'type', 'repr',
            'input', 'print', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'delattr', 'round', 'pow',
            'divmod', 'callable', 'vars', 'dir', 'id', 'hash', 'format', 'chr', 'ord', 'complex', 'bytes', 'object',
            'super', 'property', 'staticmethod', 'classmethod', 'frozenset', 'slice', 'compile', 'exec', 'eval', 'globals',
            'locals', 'memoryview', 'bytearray', 'NotImplemented', 'Ellipsis', '__import__', 'exit', 'quit'} | set(EXC_PARENT) | {'BaseException'}

NEUTRAL_CONTEXTS = {'numpy.errstate', 'warnings.catch_warnings'}

EXT_CONST = {
    'math.pi': PI, 'numpy.pi': PI, 'scipy.pi': PI, 'scipy.constants.pi': PI,
    'numpy.newaxis': NONE, 'math.inf': sym('inf'), 'numpy.inf': sym('inf'), 'numpy.nan': sym('nan'), 'math.nan': sym('nan'),
    'os.sep': sym('os.sep'), 'os.name': sym('os.name'), 'sys.platform': sym('sys.platform'),
    'numpy.float64': sym('float64'), 'numpy.float': sym('float64'), 'numpy.float32': sym('float32'), 'numpy.complex128': sym('complex128'),
    'numpy.complex': sym('complex128'), 'numpy.complex64': sym('complex64'),
    'numpy.int32': sym('int32'), 'numpy.int16': sym('int16'), 'numpy.int64': sym('int64'), 'numpy.int8': sym('int8'),
    'numpy.uint8': sym('uint8'), 'numpy.uint16': sym('uint16'), 'numpy.uint32': sym('uint32'), 'numpy.bool_': sym('bool'),
    'numpy.object_': sym('object'), 'numpy.double': sym('float64'), 'numpy.int_': sym('int64'),
}

# foreign pure functions -> normal name
PUREMAP = {}
for _m in ('numpy', 'math', 'scipy', 'cmath'):
    for _f in ('sqrt', 'cos', 'sin', 'tan', 'exp', 'log10', 'log', 'radians', 'degrees', 'floor', 'ceil', 'fabs', 'log2', 'hypot'):
        PUREMAP[_m + '.' + _f] = _f
PUREMAP.update({
    'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'math.fabs': 'abs', 'numpy.fabs': 'abs',
    'numpy.arccos': 'acos', 'math.acos': 'acos', 'numpy.arcsin': 'asin', 'math.asin': 'asin', 'numpy.arctan': 'atan', 'math.atan': 'atan',
    'numpy.arctan2': 'atan2', 'math.atan2': 'atan2', 'numpy.deg2rad': 'radians', 'numpy.rad2deg': 'degrees',
    'numpy.linalg.norm': 'norm', 'numpy.cross': 'cross', 'numpy.dot': 'dot', 'numpy.vdot': 'dot', 'numpy.inner': 'dot', 'numpy.matmul': 'dot',
    'numpy.argmin': 'argmin', 'numpy.argmax': 'argmax', 'numpy.argsort': 'argsort', 'numpy.sort': 'sorted',
    'numpy.mod': 'mod', 'math.fmod': 'fmod', 'numpy.remainder': 'mod', 'numpy.isfinite': 'isfinite', 'math.isfinite': 'isfinite',
    'numpy.isnan': 'isnan', 'math.isnan': 'isnan', 'numpy.round': 'round', 'numpy.around': 'round', 'numpy.rint': 'round',
    'numpy.median': 'median', 'numpy.std': 'std', 'numpy.var': 'var', 'numpy.real': 'real', 'numpy.imag': 'imag', 'numpy.conj': 'conj',
    'numpy.conjugate': 'conj', 'numpy.angle': 'angle', 'numpy.flipud': 'flip', 'numpy.flip': 'flip',
    'numpy.logical_and': 'logical_and', 'numpy.logical_or': 'logical_or', 'numpy.logical_not': 'logical_not', 'numpy.where': 'where',
    'numpy.isclose': 'isclose', 'math.isclose': 'isclose', 'numpy.allclose': 'allclose', 'numpy.argwhere': 'argwhere', 'numpy.nonzero': 'nonzero',
    'numpy.reshape': 'reshape', 'numpy.transpose': 'transpose', 'numpy.sign': 'sign', 'numpy.square': 'square', 'numpy.power': 'pow', 'math.pow': 'pow',
    'numpy.fft.fft': 'fft', 'numpy.fft.ifft': 'ifft', 'numpy.fft.fftshift': 'fftshift', 'numpy.fft.ifftshift': 'ifftshift',
    'scipy.fftpack.fft': 'fft', 'numpy.linspace': 'linspace', 'numpy.meshgrid': 'meshgrid', 'numpy.cumsum': 'cumsum', 'numpy.diff': 'diff',
    'numpy.minimum': 'min', 'numpy.maximum': 'max', 'numpy.clip': 'clip', 'numpy.outer': 'outer', 'numpy.multiply': 'mul', 'numpy.add': 'add',
    'numpy.subtract': 'sub', 'numpy.divide': 'div', 'numpy.negative': 'neg', 'numpy.true_divide': 'div', 'numpy.floor_divide': 'floordiv',
    'numpy.trunc': 'trunc', 'math.trunc': 'trunc', 'numpy.shape': 'shape', 'numpy.size': 'size', 'numpy.prod': 'prod', 'numpy.concatenate': 'concatenate',
    'numpy.hstack': 'hstack', 'numpy.vstack': 'vstack', 'numpy.stack': 'stack', 'numpy.tile': 'tile', 'numpy.repeat': 'repeat', 'numpy.roll': 'roll',
    'numpy.nanmean': 'nanmean', 'numpy.nansum': 'nansum', 'numpy.unique': 'unique', 'numpy.interp': 'interp', 'numpy.histogram': 'histogram',
    'os.path.dirname': 'dirname', 'os.path.basename': 'basename', 'os.path.splitext': 'splitext', 'os.path.abspath': 'abspath',
    'os.path.normpath': 'normpath', 'os.path.expanduser': 'expanduser', 'os.path.join': 'join', 'os.path.relpath': 'relpath',
    'os.path.realpath': 'realpath', 'os.path.split': 'pathsplit', 'os.path.expandvars': 'expandvars', 'os.path.isabs': 'isabs',
    'json.loads': 'json_loads', 'json.dumps': 'json_dumps', 'copy.copy': 'copyof', 'copy.deepcopy': 'deepcopyof',
    'fnmatch.fnmatch': 'fnmatch', 'textwrap.dedent': 'dedent', 'netCDF4.num2date': 'num2date', 'datetime.timedelta': 'timedelta', 'datetime.datetime': 'datetime',
    'scipy.stats.skew': 'skew', 'scipy.stats.kurtosis': 'kurtosis',
    'collections.OrderedDict': 'OrderedDict', 're.sub': 're_sub', 're.match': 're_match', 're.compile': 're_compile',
    'pyproj.Proj': 'Proj', 'pyproj.transform': 'proj_transform',
})

# functions whose difference from one another is a difference in meaning
KNOWN = set(PUREMAP.values()) | {
    'num', 'str', 'none', 'true', 'false', 'enum', 'sym', 'attr', 'poly', 'ite', 'cmp', 'eq', 'truth', 'in', 'select', 'idx', 'slice',
    'store', 'list', 'tuple', 'dict', 'set', 'append', 'concat', 'cat', 'str_of', 'fmtspec', 'join', 'len', 'full', 'arange', 'map', 'fmap',
    'sum', 'tab', 'mu', 'ph', 'col', 'bv', 'min', 'max', 'amin', 'amax', 'mean', 'abs', 'int', 'float', 'floordiv', 'mod', 'pow', 'sqrt',
    'exp', 'pgrp', 'matmul', 'asmatrix', 'transpose', 'ravel', 'shape', 'size', 'dtype', 'seq', 'ev', 'ret', 'eps', 'RET', 'RAISE', 'exc',
    'raises', 'exof', 'isexc', 'isinstance', 'hasattr', 'undef', 'range', 'key', 'drop', 'asarray', 'inf', 'kw', 'lam', 'update',
    'getattr', 'sorted', 'npsum', 'invert', 'astype', 'curve_fit', 'bytes', 'npany', 'npall', 'bool', 'type', 'foreach', 'new', 'modvar',
    'dictof', 'setof', 'trk', 'cellof', 'divzero', 'enumof', 'items', 'keys', 'values', 'enumerate', 'zip', 'reversed', 'rangelen', 'round_n',
    'listof', 'globals', 'global', 'slice_obj', 'badfmt', 'insert', 'dictmerge', 'cell', 'obj', 'and_', 'repr', 'op_BitOr', 'op_BitAnd', 'op_RShift', 'op_LShift',
}

# file system: state dependent queries and effects share one ordered channel
FS_QUERY = {'os.path.exists': 'exists', 'os.path.isdir': 'isdir', 'os.path.isfile': 'isfile', 'os.path.getsize': 'getsize', 'os.listdir': 'listdir',
            'os.path.samefile': 'samefile', 'os.access': 'access', 'os.stat': 'stat', 'os.scandir': 'scandir', 'os.getcwd': 'getcwd',
            'glob.glob': 'glob', 'shutil.which': 'which', 'os.walk': 'walk', 'os.path.getmtime': 'getmtime', 'os.path.lexists': 'exists',
            'pkgutil.get_data': 'get_data', 'os.environ.get': 'getenv', 'os.getenv': 'getenv', 'os.path.islink': 'islink'}
FS_EFFECT = {'os.makedirs': 'makedirs', 'os.mkdir': 'mkdir', 'os.remove': 'remove', 'os.unlink': 'remove', 'os.rename': 'rename', 'os.replace': 'replace', 'os.chmod': 'chmod',
             'os.rmdir': 'rmdir', 'shutil.rmtree': 'rmtree', 'shutil.copytree': 'copytree', 'shutil.copy': 'copy', 'shutil.copyfile': 'copyfile', 'shutil.copy2': 'copy2',
             'shutil.move': 'move', 'shutil.copyfileobj': 'copyfileobj', 'os.startfile': 'startfile', 'subprocess.call': 'subprocess.call',
             'subprocess.check_call': 'subprocess.check_call', 'subprocess.Popen': 'subprocess.Popen', 'subprocess.run': 'subprocess.run'}
SIGS = {'exists': ('path',), 'copytree': ('src', 'dst', 'symlinks', 'ignore'), 'copy': ('src', 'dst'), 'move': ('src', 'dst'), 'rmtree': ('path', 'ignore_errors'),
        'makedirs': ('name', 'mode', 'exist_ok'), 'open': ('file', 'mode'), 'rename': ('src', 'dst'), 'copyfile': ('src', 'dst'),
        'fft': ('a', 'n', 'axis', 'norm'), 'ifft': ('a', 'n', 'axis', 'norm'), 'fftshift': ('x', 'axes'), 'ifftshift': ('x', 'axes'),
        'argsort': ('a', 'axis'), 'argmin': ('a', 'axis'), 'argmax': ('a', 'axis'), 'mean': ('a', 'axis'), 'std': ('a', 'axis'),
        'norm': ('x', 'ord', 'axis'), 'timedelta': ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours'), 'round': ('a', 'decimals')}
# modes and options that are the default
DEFAULT_KW = {('open', 'mode'): string('r'), ('rmtree', 'ignore_errors'): FALSE, ('makedirs', 'exist_ok'): FALSE, ('round', 'decimals'): ZERO}

EV_EXC = {k: ['OSError'] for k in list(FS_EFFECT.values()) + list(FS_QUERY.values()) + ['open', 'write', 'close', 'read', 'readline', 'readlines', 'flush', 'truncate', 'seek', 'get_data']}
EV_EXC['subprocess.check_call'] = ['OSError', 'CalledProcessError']
EV_EXC['next'] = ['StopIteration', 'Exception']
EV_EXC['getitem'] = ['KeyError', 'IndexError', 'TypeError']
EV_EXC['delitem'] = ['KeyError', 'IndexError']
EV_EXC['json_load'] = ['ValueError', 'OSError']
EV_EXC['int'] = EV_EXC['float'] = ['ValueError', 'TypeError']
EV_EXC['getattr'] = ['AttributeError', 'Exception']

PURE_METHODS = {'format', 'isoformat', 'strftime', 'total_seconds', 'date', 'time'}
QUERY_METHODS = {'is_cancelled', 'stat', 'is_dir', 'is_file', 'ncattrs', 'getncattr'}
NONMUTATING = {'progress', 'start', 'done', 'is_cancelled', 'child', 'starting', 'check_for_cancellation'}

IGNORED_EFFECTS = {'print', 'warnings.simplefilter', 'warnings.filterwarnings', 'logging.debug', 'logging.info', 'sys.stdout.flush', 'sys.stderr.flush',
                   'sys.stdout.write', 'sys.stderr.write'}


def norm_kw(name, args, kwargs, it):
    """positional form of keyword arguments for functions with a known signature"""
    sig = SIGS.get(name)
    out = list(args)
    kw = dict(kwargs)
    if sig:
        while len(out) < len(sig) and sig[len(out)] in kw:
            out.append(kw.pop(sig[len(out)]))
        for i, p in enumerate(sig):
            if i < len(out) and (name, p) in DEFAULT_KW and it.deref(out[i]) is DEFAULT_KW[(name, p)] and i == len(out) - 1:
                out.pop()
        for p in list(kw):
            if (name, p) in DEFAULT_KW and it.deref(kw[p]) is DEFAULT_KW[(name, p)]:
                kw.pop(p)
            elif kw[p] is NONE:
                kw.pop(p)
    return out + [mk('kw', k, it.deref(v)) for k, v in sorted(kw.items())]


def dtype_term(it, v):
    d = it.deref(v)
    if d.op == 'fn':
        from .interp import FnVal
        p = FnVal.table[d.args[0]]
        if p[0] == 'builtin':
            return {'float': sym('float64'), 'complex': sym('complex128'), 'int': sym('int64'), 'object': sym('object'), 'bool': sym('bool')}.get(p[1], sym(p[1]))
    if d.op == 'str':
        return {'float': sym('float64'), 'f8': sym('float64'), 'complex': sym('complex128')}.get(d.args[0], sym(d.args[0]))
    return d


def call_external(it, dotted, args, kwargs):
    from .interp import FnVal, Unsupported
    if dotted in ('warnings.simplefilter', 'warnings.filterwarnings') and args and it.deref(args[0]) is string('error'):
        # warnings become exceptions
        it.event('x:warnfilter', dotted, args + [kwargs[k] for k in sorted(kwargs) if isinstance(k, str) and isinstance(kwargs[k], T)], raises=False, result=False)
    if dotted in IGNORED_EFFECTS:
        return NONE
    if dotted.startswith('scipy.') and dotted.count('.') == 1:
        dotted = 'numpy.' + dotted[6:]      # historical aliases of the numpy functions
    if dotted == 'numpy.clip' and len(args) == 3:
        x, lo, hi = [it.deref(a) for a in args]
        return pure('min', [pure('max', [x, lo]), hi])
    if dotted in EXT_CONST:
        # dtype used as a conversion
        return app('astype', it.deref(args[0]), EXT_CONST[dotted]) if args else EXT_CONST[dotted]
    last = dotted.split('.')[-1]
    star = any(isinstance(a, tuple) for a in args)
    if star:
        args = [mk('star', a[1]) if isinstance(a, tuple) else a for a in args]
    if dotted.startswith('builtins.'):
        return call_builtin(it, last, args, kwargs)
    if dotted in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'):
        sh = it.deref(args[0] if args else kwargs.get('shape', UNDEF))
        rest = args[1:]
        if last == 'full':
            v = it.deref(rest[0] if rest else kwargs['fill_value'])
            rest = rest[1:]
        else:
            v = {'zeros': ZERO, 'ones': ONE, 'empty': sym('uninit')}[last]
        dt = dtype_term(it, rest[0] if rest else kwargs['dtype']) if (rest or 'dtype' in kwargs) else sym('float64')
        return it.fresh_cell(app('full', sh, v, dt))
    if dotted in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like'):
        v = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': sym('uninit')}[last]
        x = it.deref(args[0])
        if x.op == 'full':
            return it.fresh_cell(app('full', x.args[0], v, *([dtype_term(it, kwargs['dtype'])] if 'dtype' in kwargs else x.args[2:])))
        return it.fresh_cell(app('full', app('shape', x), v, dtype_term(it, kwargs['dtype']) if 'dtype' in kwargs else app('dtype', x)))
    if dotted == 'numpy.arange':
        vals = [it.deref(a) for a in args]
        if len(vals) == 1:
            return app('arange', ZERO, vals[0])
        if len(vals) == 2:
            return app('arange', vals[0], vals[1])
        return app('x:arange3', *vals)
    if dotted in ('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray'):
        x = it.deref(args[0])
        dt = args[1] if len(args) > 1 else kwargs.get('dtype')
        if dt is not None:
            d = dtype_term(it, dt)
            if d is not sym('float64'):
                x = app('astype', x, d)
        if dotted == 'numpy.array':
            return it.fresh_cell(x)
        if x.op in REFLIKE or x.op == 'full':
            return args[0]
        return it.fresh_cell(x)
    if dotted in ('numpy.matrix', 'numpy.asmatrix', 'numpy.mat'):
        x = it.deref(args[0])
        return app('asmatrix', x)
    if dotted in ('numpy.sum', 'numpy.mean', 'numpy.min', 'numpy.max', 'numpy.amin', 'numpy.amax', 'numpy.any', 'numpy.all', 'numpy.ravel', 'numpy.std', 'numpy.average'):
        x = it.deref(args[0])
        if last == 'average':
            last = 'mean' if len(args) == 1 and 'weights' not in kwargs else 'average'
        return reduction(it, {'amin': 'min', 'amax': 'max'}.get(last, last), x, norm_kw('mean', args, kwargs, it)[1:])
    if dotted == 'numpy.copy':
        return it.fresh_cell(it.deref(args[0]))
    if dotted in ('math.fsum',):
        return reduction(it, 'sum', it.deref(args[0]), [])
    if dotted == 'functools.partial':
        return mk('x:partial')
    if dotted in PUREMAP:
        nm = PUREMAP[dotted]
        if nm == 'OrderedDict':
            return call_builtin(it, 'dict', args, kwargs)
        vals = [it.deref(a) for a in norm_kw(nm, args, kwargs, it)]
        if nm in ('copyof', 'deepcopyof') and vals[0].op in CONTAINER_OPS:
            return it.fresh_cell(vals[0])
        return pure(nm, vals)
    if dotted in FS_QUERY:
        nm = FS_QUERY[dotted]
        r = it.query('fs', nm, norm_kw(nm, args, kwargs, it))
        if nm not in ('exists', 'isdir', 'isfile', 'which'):
            it.may_raise(mk('exof', mk('ev', nm, *[it.deref(a) for a in args])))
        return r
    if dotted in FS_EFFECT:
        nm = FS_EFFECT[dotted]
        return it.event('fs', nm, norm_kw(nm, args, kwargs, it))
    if dotted in ('io.open', 'codecs.open'):
        return call_builtin(it, 'open', args, kwargs)
    if last in EXC_PARENT or (last[:1].isupper() and last.endswith(('Error', 'Warning', 'Exception'))):
        return mk('exc', last)
    if dotted == 'json.load':
        return it.event('obj:json', 'json_load', args, result=True)
    if dotted == 'warnings.warn':
        a = [it.deref(x) for x in args]
        return it.event('warn', 'warn', [mk('list', *[x if x.op == 'exc' else sym('msg') for x in a[:1]])], raises=False)
    if dotted in ('time.time', 'time.perf_counter', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today'):
        return it.query('time', last, list(args) + [mk('kw', k, it.deref(v)) for k, v in sorted(kwargs.items())])
    if dotted in ('scipy.optimize.curve_fit',):
        r = app('curve_fit', *[it.deref(a) for a in args])
        it.may_raise(mk('exof', mk('ev', 'curve_fit', *[it.deref(a) for a in args])))
        return r
    if dotted in ('sys.exit', 'exit'):
        it.do_raise(mk('exc', 'SystemExit'))
        return NONE
    if dotted in ('typing.cast',):
        return args[1]
    root = dotted.split('.')[0]
    vals = norm_kw(last, args, kwargs, it)
    if root in ('numpy', 'math', 'scipy', 'operator', 'itertools', 'functools', 'string', 're', 'statistics'):
        return app('x:' + dotted, *[it.deref(v) for v in vals])
    if dotted in ('os.environ',):
        return sym('environ')
    if root == 'matplotlib' and last in ('xlabel', 'ylabel', 'title', 'grid', 'legend', 'colorbar', 'axis'):
        return it.event('draw:' + last, dotted, vals)
    return it.event('x:' + root, dotted, vals)


def pure(nm, vals):
    if nm in ('add', 'sub', 'mul', 'div'):
        return {'add': add, 'sub': sub, 'mul': mul, 'div': div}[nm](*vals[:2])
    if nm == 'neg':
        return neg(vals[0])
    if nm == 'square':
        return mul(vals[0], vals[0])
    if nm == 'clip' and len(vals) == 3:
        return app('min', app('max', vals[0], vals[1]), vals[2])
    if nm in ('norm', 'dot') and not any(x.op == 'kw' for x in vals):
        # a row vector as a matrix: the same length and (as a matrix of one element) the same product
        vals = [x.args[0] if x.op == 'asmatrix' and x.args[0].op in ('list', 'tuple') and x.args[0].args
                and not any(y.op in ('list', 'tuple') for y in x.args[0].args) else x for x in vals]
    if nm == 'norm' and len(vals) == 1 and vals[0].op == 'attr' and vals[0].args[1] == 'vel_sat_sar':
        return mk('attr', vals[0].args[0], 'vel_sat_sar_norm', *vals[0].args[2:])
    if nm == 'norm' and len(vals) == 1 and vals[0].op in ('list', 'tuple') and vals[0].args \
            and not any(x.op in ('list', 'tuple') for x in vals[0].args):
        r = ZERO
        for x in vals[0].args:
            r = add(r, mul(x, x))
        return app('sqrt', r)
    if nm == 'hypot':
        return app('sqrt', add(mul(vals[0], vals[0]), mul(vals[1], vals[1])))
    if nm == 'copyof' or nm == 'deepcopyof':
        return vals[0]
    if nm == 'OrderedDict' and not vals:
        return mk('dict')
    if nm == 'transpose' and vals[0].op == 'transpose':
        return vals[0].args[0]
    return app(nm, *vals)


def reduction(it, nm, x, rest):
    if nm == 'sum' and not rest:
        if x.op in ('list', 'tuple'):
            r = ZERO
            for a in x.args:
                r = add(r, a)
            return r
        if x.op == 'map':
            return app('sum', *x.args)
        if x.op == 'fmap':
            n, c, b, h = x.args
            return app('sum', n, ite(c, b, ZERO), h)
        return app('npsum', x)
    if nm in ('min', 'max') and not rest:
        if x.op in ('list', 'tuple') and x.args:
            return app(nm, *x.args)
        return app('a' + nm, x)
    if nm in ('any', 'all') and not rest:
        if x.op in ('list', 'tuple'):
            r = FALSE if nm == 'any' else TRUE
            for a in x.args:
                r = bor(r, truth(a)) if nm == 'any' else band(r, truth(a))
            return r
        if x.bl:
            return x
        if x.op in ('fmap', 'map'):
            n, c, b, h = x.args if x.op == 'fmap' else (x.args[0], TRUE, x.args[1], x.args[2])
            b = truth(b)
            if nm == 'any':
                return atom(mk('any', n, band(c, b), h))
            return bnot(atom(mk('any', n, band(c, bnot(b)), h)))
        return atom(mk('np' + nm, x))
    if nm == 'mean' and not rest:
        if x.op in ('list', 'tuple', 'map'):
            return div(reduction(it, 'sum', x, []), app('len', x))
        return app('mean', x)
    if nm == 'ravel':
        return app('ravel', x)
    return app('np' + nm if nm in ('sum', 'any', 'all') else nm, x, *[it.deref(r) for r in rest])


SMART['ravel'] = lambda x: x.args[0] if x.op == 'asmatrix' and x.args[0].op in REFLIKE else mk('ravel', x)
def _strjoin(c, *xs):
    if c.op == 'str' and len(xs) == 1 and xs[0].op in ('list', 'tuple'):
        parts = []
        for i, a in enumerate(xs[0].args):
            if i:
                parts.append(c)
            parts.append(a)
        return app('cat', *parts)
    return mk('m:join', c, *xs)


SMART['m:join'] = _strjoin
SMART['str_of'] = lambda x: x if x.op in ('str', 'cat', 'str_of', 'fmtspec', 'join') else (app('cat', x) if x.op == 'num' else mk('str_of', x))
SMART['float'] = lambda x: x if numeric(x) else mk('float', x)


def _shape(x):
    if x.op == 'full':
        s = x.args[0]
        return s if s.op in ('tuple', 'shape') else mk('tuple', s)
    if x.op in ('store', 'tab'):
        return app('shape', x.args[0])
    return mk('shape', x)


SMART['shape'] = _shape


def _dtype(x):
    if x.op == 'full' and len(x.args) > 2:
        return x.args[2]
    if x.op in ('store', 'tab'):
        return app('dtype', x.args[0])
    return mk('dtype', x)


SMART['dtype'] = _dtype


def _sel_shape():
    old = SMART['select']

    def f(a, ix):
        if a.op == 'shape' and len(ix.args) == 1 and isnum(ix.args[0], 0):
            return app('len', a.args[0])
        if a.op == 'drop' and len(ix.args) >= 1 and a.args[1].args and isnum(a.args[1].args[0], 0) and ix.args[0].op == 'num' and ix.args[0].args[0] >= 0:
            return app('select', a.args[0], idx(num(ix.args[0].args[0] + 1), *ix.args[1:]))
        return old(a, ix)
    SMART['select'] = f


_sel_shape()


def _drop(a, ix):
    if a.op == 'list' and len(ix.args) == 1 and ix.args[0].op == 'num':
        i = int(ix.args[0].args[0])
        if -len(a.args) <= i < len(a.args):
            l = list(a.args)
            del l[i]
            return mk('list', *l)
    if a.op == 'dict' and len(ix.args) == 1 and isconst(ix.args[0]):
        l = list(a.args)
        for i in range(0, len(l), 2):
            if l[i] is ix.args[0]:
                return mk('dict', *(l[:i] + l[i + 2:]))
    if not ix.args or (len(ix.args) == 1 and ix.args[0] is FULL):
        return mk('list')
    return mk('drop', a, ix)


SMART['drop'] = _drop


def call_builtin(it, name, args, kwargs):
    from .interp import FnVal, Unsupported
    if name == 'print':
        if it.prints:
            it.event('out', 'print', [a[1] if isinstance(a, tuple) else a for a in args], raises=False)
        return NONE
    if name in EXC_PARENT or name == 'BaseException':
        return mk('exc', name)
    if name == 'filter' and len(args) == 2 and not any(isinstance(a, tuple) for a in args):
        return map_filter(it, args[0], args[1], True)
    if name == 'map' and len(args) == 2 and not any(isinstance(a, tuple) for a in args):
        return map_filter(it, args[0], args[1], False)
    args = [mk('star', a[1]) if isinstance(a, tuple) else a for a in args]
    D = it.deref
    if name == 'len':
        return app('len', D(args[0]))
    if name == 'range':
        v = [D(a) for a in args]
        if len(v) == 1:
            v = [ZERO, v[0], ONE]
        elif len(v) == 2:
            v = [v[0], v[1], ONE]
        return mk('range', *v)
    if name == 'enumerate':
        st = D(args[1]) if len(args) > 1 else D(kwargs['start']) if 'start' in kwargs else ZERO
        return mk('enumerate', snapshot(it, args[0]), st)
    if name == 'zip':
        return mk('zip', *[snapshot(it, a) for a in args])
    if name == 'reversed':
        return mk('reversed', snapshot(it, args[0]))
    if name in ('min', 'max'):
        if len(args) == 1:
            if 'key' in kwargs or 'default' in kwargs:
                return app('x:%s_key' % name, D(args[0]), *[D(v) for k, v in sorted(kwargs.items())])
            return reduction(it, name, D(args[0]), [])
        return app(name, *[D(a) for a in args])
    if name == 'abs':
        return app('abs', D(args[0]))
    if name == 'sum':
        r = reduction(it, 'sum', D(args[0]), [])
        if len(args) > 1:
            r = add(r, D(args[1]))
        return r
    if name in ('any', 'all'):
        return reduction(it, name, D(args[0]), [])
    if name == 'int':
        if not args:
            return ZERO
        x = D(args[0])
        if not numeric(x):
            it.may_raise(mk('exof', mk('ev', 'int', x)), ('ValueError', 'TypeError'))
        if len(args) > 1:
            return app('intbase', x, D(args[1]))
        return app('int', x)
    if name == 'float':
        if not args:
            return ZERO
        x = D(args[0])
        if not numeric(x):
            it.may_raise(mk('exof', mk('ev', 'float', x)), ('ValueError', 'TypeError'))
        return app('float', x)
    if name == 'bool':
        return it.truth(args[0]) if args else FALSE
    if name == 'str':
        return app('str_of', D(args[0])) if args else string('')
    if name == 'repr':
        return app('repr', D(args[0]))
    if name in ('list', 'tuple'):
        if not args:
            c = mk('list')
        else:
            d = it.content(args[0])
            if d.op in ('range', 'enumerate', 'zip', 'reversed', 'items', 'keys', 'values'):
                dom = it.iter_domain(args[0])
                if dom[0] == 'const':
                    c = mk('list', *dom[1])
                else:
                    tv = it.tv()
                    c = close('map', tv, [dom[0], it.deref(dom[1](tv))])
            elif d.op in ('list', 'tuple', 'set'):
                c = mk('list', *d.args)
            elif d.op == 'dict':
                c = mk('list', *d.args[::2])
            else:
                c = it.deref(args[0])
        if name == 'tuple':
            return mk('tuple', *c.args) if c.op == 'list' else c
        return it.fresh_cell(c)
    if name == 'dict':
        if not args:
            items = []
            if '**' in kwargs:
                return it.fresh_cell(D(kwargs['**']))
            for k, v in kwargs.items():
                items += [string(k), v]
            return it.fresh_cell(mk('dict', *items))
        x = it.content(args[0])
        if x.op in ('list', 'tuple') and all(it.content(a).op in ('tuple', 'list') and len(it.content(a).args) == 2 for a in x.args):
            c = mk('dict')
            for a in x.args:
                k, v = it.content(a).args
                c = app('store', c, idx(D(k)), v)
            x = c
        if x.op == 'dict':
            c = x
            for k, v in kwargs.items():
                if k == '**':
                    c = mk('dictmerge', c, D(v))
                else:
                    c = app('store', c, idx(string(k)), v)
            return it.fresh_cell(c)
        if x.op == 'zip':
            dom = it.iter_domain(args[0])
            if dom[0] == 'const':
                items = []
                for t in dom[1]:
                    items += list(t.args)
                return it.fresh_cell(mk('dict', *items))
        x = D(args[0])
        if x.op == 'list' and all(t.op == 'tuple' and len(t.args) == 2 for t in x.args):
            items = []
            for t in x.args:
                items += list(t.args)
            return it.fresh_cell(mk('dict', *items))
        return it.fresh_cell(app('dictof', x) if x.op not in REFLIKE else x)
    if name in ('set', 'frozenset'):
        if not args:
            return it.fresh_cell(mk('set'))
        x = D(args[0])
        if x.op in ('list', 'tuple', 'set'):
            return it.fresh_cell(mk('set', *sorted(set(x.args), key=lambda t: t.id)))
        return it.fresh_cell(app('setof', x))
    if name == 'sorted':
        kw = [mk('kw', k, D(v)) for k, v in sorted(kwargs.items())]
        return it.fresh_cell(app('sorted', D(args[0]), *kw))
    if name == 'iter':
        return args[0]
    if name == 'next':
        r = it.event('obj:' + rootn(it, args[0]), 'next', args[:1])
        if len(args) > 1:
            return app('x:next_default', r, D(args[1]))
        return r
    if name == 'open':
        return it.event('fs', 'open', norm_kw('open', args, kwargs, it))
    if name == 'input':
        return it.event('input', 'input', [])
    if name == 'isinstance':
        from .interp import FnVal
        x = D(args[0])
        c = args[1]
        cs = c.args if c.op == 'tuple' else [c]
        r = FALSE
        for k in cs:
            nm = clsname(k)
            if x.op in ('exc', 'exof') or x.op == 'ite':
                if x.op == 'ite':
                    r = bor(r, atom(mk('isinstance', x, nm)))
                else:
                    r = bor(r, it.exc_matches(x, nm))
            elif x.op == 'str':
                r = bor(r, TRUE if nm == 'str' else FALSE)
            else:
                r = bor(r, atom(mk('isinstance', x, nm)))
        return r
    if name == 'issubclass':
        return atom(mk('issubclass', D(args[0]), D(args[1])))
    if name == 'hasattr':
        a0, a1 = args[0], D(args[1])
        if a1.op == 'str':
            own = a0.args[0] if a0.op == 'attr' and a0.args[1] == '__class__' else (a0.args[0] if a0.op == 'type_of' else None)
            cls = it.types.get(own) if own is not None else None
            if cls is not None and any(a1.args[0] in c.methods or a1.args[0] in c.attrs for c in it.repo.mro(cls)):
                return TRUE
        return atom(mk('hasattr', D(args[0]), D(args[1])))
    if name == 'getattr':
        nm = D(args[1])
        if nm.op == 'str':
            if len(args) == 3:
                c = atom(mk('hasattr', D(args[0]), nm))
                return ite(c, it.getattr(args[0], nm.args[0]), args[2])
            if it.trystack:
                it.may_raise(mk('exof', mk('ev', 'getattr', D(args[0]), nm)))
            return it.getattr(args[0], nm.args[0])
        if len(args) == 3:
            return ite(atom(mk('hasattr', D(args[0]), nm)), app('getattr', D(args[0]), nm), args[2])
        it.may_raise(mk('exof', mk('ev', 'getattr', D(args[0]), nm)))
        return app('getattr', D(args[0]), nm)
    if name == 'setattr':
        nm = D(args[1])
        if nm.op == 'str':
            it.setattr(args[0], nm.args[0], args[2])
            return NONE
        it.event('setattr', 'setattr', args, raises=False)
        return NONE
    if name == 'round':
        return app('round', *[D(a) for a in norm_kw('round', args, kwargs, it)])
    if name == 'pow':
        return app('pow', D(args[0]), D(args[1]))
    if name == 'type':
        return app('type', D(args[0]))
    if name == 'slice':
        v = [D(a) for a in args]
        if len(v) == 1:
            v = [NONE, v[0], NONE]
        elif len(v) == 2:
            v = v + [NONE]
        return mk('slice_obj', *v)
    if name == 'complex':
        v = [D(a) for a in args] + [ZERO]
        return add(v[0], mul(IMAG, v[1]))
    if name == 'format':
        return app('str_of', D(args[0])) if len(args) == 1 else mk('fmtspec', D(args[0]), repr(D(args[1])))
    if name == 'object':
        return it.fresh_cell(mk('list'))
    if name == 'divmod':
        a, b = D(args[0]), D(args[1])
        return mk('tuple', app('floordiv', a, b), app('mod', a, b))
    if name == 'callable':
        return atom(mk('callable', D(args[0])))
    if name in ('id', 'hash'):
        return app('f:' + name, *[D(a) for a in args])
    if name in ('vars', 'dir'):
        return app('x:' + name, *[D(a) for a in args])
    if name in ('exec', 'eval', 'compile'):
        return it.event('exec', name, args)
    if name == 'exit':
        it.do_raise(mk('exc', 'SystemExit'))
        return NONE
    return app('x:' + name, *[D(a) for a in args])


def clsname(k):
    from .interp import FnVal
    if k.op == 'fn':
        p = FnVal.table[k.args[0]]
        if p[0] == 'class':
            return p[1].name
        return str(p[1]).split('.')[-1]
    return repr(k)


def rootn(it, v):
    from .interp import rootname
    return rootname(it.deref(v))


def snapshot(it, v):
    return v


def map_filter(it, fv, seq, is_filter):
    """map()/filter() as list building"""
    import ast as _ast
    acc = it.fresh_cell(mk('list'))

    class _Slot:
        pass
    saved = it.st.env
    it.st.env = dict(saved)
    tgt = _ast.Name(id='$mf', ctx=_ast.Store())

    def body():
        x = it.st.env['$mf']
        if is_filter:
            c = it.truth(x) if fv is NONE else it.truth(it.call_value(fv, [x], {}))

            def yes():
                it.st.cells[acc] = app('append', it.st.cells[acc], x)
            it.branch(c, yes, lambda: None)
        else:
            v = it.call_value(fv, [x], {})
            it.st.cells[acc] = app('append', it.st.cells[acc], v)
    it.loop_over(seq, tgt, body, [])
    it.st.env = saved
    return acc


ARRAY_METHODS = {'min', 'max', 'sum', 'mean', 'std', 'any', 'all', 'ravel', 'argmin', 'argmax', 'argsort', 'var', 'prod', 'cumsum', 'round', 'transpose', 'dot', 'conj', 'nonzero'}
STR_METHODS = {'startswith', 'endswith', 'lower', 'upper', 'strip', 'split', 'replace', 'rstrip', 'lstrip', 'encode', 'decode', 'splitlines', 'title', 'capitalize',
               'isdigit', 'find', 'rfind', 'zfill', 'partition', 'rpartition', 'rsplit', 'ljust', 'rjust', 'casefold', 'isalpha', 'isspace', 'islower', 'isupper'}


CONTAINER_OPS = {'list', 'dict', 'append', 'concat', 'store', 'set', 'fmap', 'map', 'tab', 'drop', 'update', 'sorted', 'tuple', 'dictof', 'setof'}


class NotAContainer(Exception):
    pass


def container_method(it, base, c, name, args, kwargs, target=None):
    """None if the call is not a container operation; target: expression of the container when it is an element of another"""
    try:
        return _container_method(it, base, c, name, args, kwargs, target)
    except NotAContainer:
        return None


def _container_method(it, base, c, name, args, kwargs, target):
    def set_content(b, f):
        if not it.set_content(b, f, target if b is base and c.op in CONTAINER_OPS else None):
            raise NotAContainer()
        return True
    D = it.deref
    contlike = c.op in CONTAINER_OPS or base.op == 'cell'
    if name == 'append' and len(args) == 1:
        v = args[0]
        if set_content(base, lambda o: app('append', o, v)):
            return NONE
        return None
    if name == 'extend' and len(args) == 1:
        v = D(args[0])
        d = it.content(args[0])
        if d.op == 'tuple':
            v = mk('list', *v.args)
        if set_content(base, lambda o: app('concat', o, v)):
            return NONE
        return None
    if name == 'insert' and len(args) == 2:
        i, v = D(args[0]), args[1]
        if set_content(base, lambda o: app('insert', o, i, D(v)) if not (o.op == 'list' and isnum(i, 0)) else mk('list', v, *o.args)):
            return NONE
        return None
    if name == 'pop' and len(args) <= 2 and not kwargs:
        k = D(args[0]) if args else NEG1
        dd = D(base) if c.op != "dict" else c
        if len(args) == 2:
            cond = app("contains", k, D(base))
            v = ite(cond, app('select', dd, idx(k)), args[1])
            set_content(base, lambda o: ite(cond, app('drop', o, idx(k)), o))
            return v
        v = app('select', c, idx(k))
        it.may_raise(mk('exof', mk("ev", "delitem", D(base), idx(k))), ('KeyError', 'IndexError'))
        if set_content(base, lambda o: app('drop', o, idx(k))):
            return v
        return None
    if name == 'get' and 1 <= len(args) <= 2 and not kwargs:
        k = D(args[0])
        dflt = args[1] if len(args) > 1 else NONE
        return ite(app("contains", k, D(base)), app('select', c, idx(k)), dflt)
    if name in ('items', 'keys', 'values') and not args:
        return mk(name, base)
    if name == 'setdefault' and contlike:
        k = D(args[0])
        dflt = args[1] if len(args) > 1 else NONE
        cond = app("contains", k, D(base))
        set_content(base, lambda o: ite(cond, o, app('store', o, idx(k), dflt)))
        return ite(cond, app('select', c, idx(k)), dflt)
    if name == 'update' and contlike and len(args) <= 1:
        new = []
        if args:
            u = it.content(args[0])
            if u.op == 'dict':
                new += [(u.args[i], u.args[i + 1]) for i in range(0, len(u.args), 2)]
            else:
                uu = D(args[0])
                set_content(base, lambda o: uu if o.op == 'dict' and not o.args else mk('update', D(o), uu))
                return NONE
        for k, v in kwargs.items():
            if k == '**':
                return None
            new.append((string(k), v))

        def up(o):
            for k, v in new:
                o = app('store', o, idx(k), v)
            return o
        set_content(base, up)
        return NONE
    if name == 'clear' and not args and (contlike or c.op in REFLIKE):
        set_content(base, lambda o: mk('dict') if o.op == 'dict' else mk('list'))
        return NONE
    if name == 'copy' and not args and (contlike or c.op in ('full',) or c.op in REFLIKE):
        return it.fresh_cell(c)
    if name == 'sort' and contlike:
        set_content(base, lambda o: app('sorted', D(o), *[mk('kw', k, D(v)) for k, v in sorted(kwargs.items())]))
        return NONE
    if name == 'reverse' and contlike:
        set_content(base, lambda o: app('flip', D(o)))
        return NONE
    if name == 'remove' and contlike:
        v = D(args[0])
        set_content(base, lambda o: mk('removeval', D(o), v))
        return NONE
    if name in ('index', 'count') and contlike:
        return app('m:' + name, D(base), *[D(a) for a in args])
    if name == 'add' and c.op in ('set', 'setof', 'setadd'):
        v = D(args[0])
        set_content(base, lambda o: mk('set', *sorted(set(o.args) | {v}, key=lambda t: t.id)) if o.op == 'set' and isconst(v) else mk('setadd', D(o), v))
        return NONE
    if name == 'fill' and len(args) == 1 and (contlike or c.op == 'full'):
        v = D(args[0])
        set_content(base, lambda o: app('store', o, idx(), v))
        return NONE
    if name == 'format' and c.op == 'str':
        return str_format(it, c.args[0], args, kwargs)
    if name == 'join' and c.op == 'str' and len(args) == 1:
        return app('m:join', c, D(args[0]))
    if name in STR_METHODS:
        vals = [D(base)] + [D(a) for a in args] + [mk('kw', k, D(v)) for k, v in sorted(kwargs.items())]
        if all(v.op == 'str' for v in vals):
            r = getattr(vals[0].args[0], name)(*[v.args[0] for v in vals[1:]])
            if isinstance(r, bool):
                return TRUE if r else FALSE
            if isinstance(r, str):
                return string(r)
        t = app('m:' + name, *vals)
        if name in ('startswith', 'endswith', 'isdigit'):
            return lift1(lambda x: atom(x) if not x.bl else x, t)
        return t
    if name in ARRAY_METHODS and not (c.op in ('str',)):
        x = D(base)
        rest = norm_kw('mean', [x] + args, kwargs, it)[1:]
        if name in ('min', 'max', 'sum', 'mean', 'any', 'all', 'ravel'):
            return reduction(it, name, x, rest)
        return pure(name, [x] + [D(r) for r in rest])
    if name == 'flatten' and not args:
        return app('ravel', D(base))
    if name == 'astype':
        dt = dtype_term(it, args[0] if args else kwargs['dtype'])
        return app('astype', D(base), dt)
    if name == 'reshape':
        a = [D(x) for x in args]
        if len(a) == 1 and a[0].op in ('tuple', 'list'):
            a = list(a[0].args)
        x = D(base)
        if len(a) == 2 and a[0] is num(-1) and a[1] is ONE and ndim(x) == 1:
            # a column
            return app('select', x, idx(mk('slice', NONE, NONE, NONE), NONE))
        return app('reshape', x, mk('tuple', *a))
    if name == 'tolist':
        return D(base)
    if name == 'with_traceback':
        return base
    return None


def str_format(it, fmt, args, kwargs):
    D = it.deref
    parts = []
    pos = 0
    auto = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}:!]*)(![rs])?(?::([^{}]*))?\}', fmt):
        parts.append(string(fmt[pos:m.start()]))
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            parts.append(string(m.group(0)[0]))
            continue
        f = m.group(1)
        if f == '':
            v = args[auto] if auto < len(args) else None
            auto += 1
        elif f.isdigit():
            v = args[int(f)] if int(f) < len(args) else None
        elif f in kwargs:
            v = kwargs[f]
        else:
            return mk('x:format', string(fmt))
        if v is None:
            return mk('badfmt', string(fmt))
        v = D(v)
        if m.group(2) == '!r':
            v = app('repr', v)
        if m.group(3):
            parts.append(mk('fmtspec', v, m.group(3)))
        else:
            parts.append(app('str_of', v))
    parts.append(string(fmt[pos:]))
    return app('cat', *parts)
