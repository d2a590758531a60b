"""Command-line declarations (C25): every sub-command, option and positional argument reaches the attribute that the
command reads, with the documented arity, and every sub-command is bound to the method that implements it."""
from sa.run import ok, bad, und, AnchorMissing
from sa.terms import *
from sa.interp import Interp

M = 'dedop/cli/main.py'
W = {'workspace_name': ('-w --workspace', {})}
C = {'config_name': ('-c --config', {})}
WPOS, WOPT = ('workspace_name', {}), ('workspace_name', {'nargs': '?'})
CPOS, COPT = ('config_name', {}), ('config_name', {'nargs': '?'})
YES = {'yes': ('-y --yes', {'action': 'store_true'})}
QUIET = {'quiet': ('-q --quiet', {'action': 'store_true'})}
NEW, NEWOPT = ('new_name', {}), ('new_name', {'nargs': '?'})
PAT = ('pattern', {'nargs': '?'})

# class -> sub-command -> (aliases, options, positionals, handler)
COMMANDS = {
    'RunProcessorCommand': {'': ('', {
        'skip_l1bs': ('-s --skip-l1bs', {'action': 'store_true'}), **QUIET, **W, **C,
        'inputs': ('-i --inputs', {'nargs': '*'}), 'output_dir': ('-o --output', {}),
        'all_configs': ('-a --all-configs', {'action': 'store_true'})}, [], None)},
    'ManageWorkspacesCommand': {
        'add': ('', {}, [WPOS], 'ws_command execute_add'),
        'remove': ('rm', YES, [WOPT], 'ws_command execute_remove'),
        'copy': ('cp', {}, [WOPT, NEWOPT], 'ws_command execute_copy'),
        'rename': ('rn', {}, [WOPT, NEW], 'ws_command execute_rename'),
        'current': ('cur', {}, [WOPT], 'ws_command execute_current'),
        'list': ('ls', {}, [], 'ws_command execute_list')},
    'ManageConfigsCommand': {
        'add': ('', {**W, 'cryosat_adapted': ('--cryosat-adapted', {'action': 'store_true'})}, [CPOS],
                'cf_command execute_add'),
        'remove': ('rm', {**W, **YES}, [COPT], 'cf_command execute_remove'),
        'edit': ('ed', W, [COPT], 'cf_command execute_edit'),
        'copy': ('cp', W, [COPT, NEWOPT], 'cf_command execute_copy'),
        'rename': ('rn', W, [COPT, NEW], 'cf_command execute_rename'),
        'info': ('i', W, [COPT], 'cf_command execute_info'),
        'current': ('cur', W, [COPT], 'cf_command execute_current'),
        'list': ('ls', W, [], 'cf_command execute_list'),
        'upgrade': ('up', W, [COPT], 'cf_command execute_upgrade'),
        'version': ('v', W, [COPT], 'cf_command execute_version')},
    'ManageInputsCommand': {
        'add': ('', {**W, **QUIET}, [('inputs', {'nargs': '+'})], 'mi_command execute_add'),
        'remove': ('rm', {**W, **QUIET}, [('inputs', {'nargs': '*'})], 'mi_command execute_remove'),
        'list': ('ls', W, [PAT], 'mi_command execute_list')},
    'ManageOutputsCommand': {
        'clean': ('cl', {**W, **C, **QUIET}, [], 'mo_command execute_clean'),
        'list': ('ls', {**W, **C}, [PAT], 'mo_command execute_list'),
        'open': ('op', {**W, **C}, [], 'mo_command execute_open'),
        'inspect': ('ins', {**W, **C}, [('l1b_filename', {})], 'mo_command execute_inspect'),
        'compare': ('cmp', {**W, **C, 'workspace_name_2': ('-W --workspace-2', {}),
                            'config_name_2': ('-C --config-2', {})},
                    [('l1b_filename_1', {}), ('l1b_filename_2', {'nargs': '?'})], 'mo_command execute_compare')},
}
PARSER = {'ManageWorkspacesCommand': 'ws_parser', 'ManageConfigsCommand': 'cf_parser',
          'ManageInputsCommand': 'mi_parser', 'ManageOutputsCommand': 'mo_parser'}
NAMES = {'RunProcessorCommand': 'run r', 'ManageWorkspacesCommand': 'workspace w', 'ManageConfigsCommand': 'config c',
         'ManageInputsCommand': 'input i', 'ManageOutputsCommand': 'output o', 'ShowStatusCommand': 'status s',
         'OpenNotebookCommand': 'notebook', 'ShowManualCommand': 'man', 'ShowCopyrightCommand': 'copyright',
         'ShowLicenseCommand': 'license'}
TEXT = ('help', 'metavar', 'description', 'epilog', 'usage')


class NotUnderstood(Exception):
    pass


def const(t):
    if t.op == 'num':
        return t.args[0]
    if t.op == 'str':
        return t.args[0]
    if t.op in ('none', 'true', 'false'):
        return {'none': None, 'true': True, 'false': False}[t.op]
    if t.op in ('tuple', 'list'):
        return [const(a) for a in t.args]
    if t.op == 'bound':
        return 'method ' + t.args[0]
    raise NotUnderstood(show(t, 4)[:200])


def events(t):
    out = []
    while t.op == 'seq':
        out.append(t.args[1])
        t = t.args[0]
    if t.op != 'eps':
        raise NotUnderstood('conditional declaration')
    out.reverse()
    if any(e.op != 'ev' for e in out):
        raise NotUnderstood('declaration in a loop')
    return out


def split(args):
    pos, kw = [], {}
    for a in args:
        if a.op == 'kw':
            kw[a.args[0] if isinstance(a.args[0], str) else const(a.args[0])] = a.args[1]
        else:
            pos.append(a)
    return pos, kw


def declared(ctx, cls_name):
    """sub-command -> {'aliases', 'options': {dest: (flags, properties)}, 'positionals': [...], 'defaults': {...}}"""
    try:
        f, cls = ctx.find('%s:%s.configure_parser_and_subparsers' % (M, cls_name))
    except AnchorMissing:
        f, cls = ctx.find('%s:%s.configure_parser' % (M, cls_name))
    it = Interp(ctx.repo)
    s = it.run(f, selfcls=cls)
    ctx.funcs |= set(it.nfuncs)
    ctx.sites += it.sites
    out = {'': {'aliases': [], 'options': {}, 'positionals': [], 'defaults': {}}}
    evs = []
    for ch in sorted(s.all_chans()):
        if ch.startswith('obj:'):
            evs.extend(events(s.chan(ch)))

    def name_of(base):
        if base.op == 'ret' and base.args[0].op == 'ev' and base.args[0].args[0] == 'add_parser':
            return const(base.args[0].args[2])
        if base.op == 'sym':
            return ''
        raise NotUnderstood('parser %s' % show(base, 3))
    for e in evs:
        if e.args[0] == 'add_parser':
            pos, kw = split(e.args[2:])
            out[const(pos[0])] = {'aliases': const(kw['aliases']) if 'aliases' in kw else [], 'options': {},
                                  'positionals': [], 'defaults': {}}
    for e in evs:
        if e.args[0] == 'add_parser':
            continue
        d = out[name_of(e.args[1])]
        pos, kw = split(e.args[2:])
        if e.args[0] == 'add_argument':
            flags = [const(p) for p in pos]
            prop = {k: const(v) for k, v in kw.items() if k not in TEXT}
            dest = prop.pop('dest', None)
            if flags and flags[0].startswith('-'):
                if dest is None:
                    long = [x for x in flags if x.startswith('--')]
                    dest = (long or flags)[0].lstrip('-').replace('-', '_')
                d['options'][dest] = (flags, prop)
            else:
                d['positionals'].append((dest if dest is not None else flags[0], prop))
        elif e.args[0] == 'set_defaults':
            for k, v in kw.items():
                d['defaults'][k] = 'parser' if v.op == 'sym' else const(v)
    return out


NEUTRAL = {'default': None, 'action': 'store', 'required': False, 'type': None}


def same(a, b):
    a = {k: v for k, v in a.items() if not (k in NEUTRAL and NEUTRAL[k] == v)}
    if a.get('action') == 'store_true' and a.get('default', 0) is False:
        a.pop('default')
    return a == b


def arguments(ctx):
    rule = 'command-line declaration'
    for cn, subs in COMMANDS.items():
        try:
            found = declared(ctx, cn)
        except NotUnderstood as x:
            yield und(rule, '%s:%s' % (M, cn), 'not understood: %s' % x)
            continue
        for sub, (aliases, opts, poss, handler) in subs.items():
            at = '%s:%s [%s]' % (M, cn, sub)
            d = found.get(sub)
            if d is None:
                yield bad(rule, at, 'sub-command "%s" is not declared' % sub)
                continue
            miss = [a for a in aliases.split() if a not in d['aliases']]
            yield bad(rule, at, 'alias %s is missing' % miss[0]) if miss else ok(rule, at + ' aliases')
            for dest, (flags, prop) in opts.items():
                o = d['options'].get(dest)
                if o is None:
                    yield bad(rule, at, 'no option sets %s' % dest)
                elif not set(flags.split()) <= set(o[0]):
                    yield bad(rule, at, 'option of %s is %s, expected %s' % (dest, ' '.join(o[0]), flags))
                elif not same(o[1], prop):
                    yield bad(rule, at, 'option %s is declared with %r, expected %r' % (flags, o[1], prop))
                else:
                    yield ok(rule, at + ' ' + dest)
            got = d['positionals']
            if [p[0] for p in got] != [p[0] for p in poss]:
                yield bad(rule, at, 'positional arguments %s, expected %s' % ([p[0] for p in got], [p[0] for p in poss]))
            else:
                for (n, a), (_, b) in zip(got, poss):
                    yield ok(rule, at + ' ' + n) if same(a, b) else bad(
                        rule, at, 'argument %s is declared with %r, expected %r' % (n, a, b))
            if handler:
                k, m = handler.split()
                g = d['defaults'].get(k)
                yield ok(rule, at + ' handler') if g == 'method ' + m else bad(
                    rule, at, '%s is bound to %s, expected %s' % (k, g, m))
        if cn in PARSER:
            at = '%s:%s' % (M, cn)
            yield ok(rule, at + ' parser') if found['']['defaults'].get(PARSER[cn]) == 'parser' else bad(
                rule, at, '%s is not set to the parser of the command' % PARSER[cn])


def registry(ctx):
    import ast
    rule = 'command registry'
    mod = ctx.repo.module(M)
    if mod is None or 'COMMAND_REGISTRY' not in mod.consts:
        raise AnchorMissing('COMMAND_REGISTRY')
    n = mod.consts['COMMAND_REGISTRY']
    if not isinstance(n, (ast.List, ast.Tuple)) or not all(isinstance(e, ast.Name) for e in n.elts):
        yield und(rule, M, 'COMMAND_REGISTRY is not a list of classes')
        return
    reg = [e.id for e in n.elts]
    for c, names in NAMES.items():
        at = '%s:%s' % (M, c)
        yield ok(rule, at) if c in reg else bad(rule, at, '%s is not in COMMAND_REGISTRY' % c)
        f, cls = ctx.find(at + '.name')
        it = Interp(ctx.repo)
        t = it.run(f, selfcls=cls).outcome()
        if t.op == 'RET' and t.args[0].op == 'str':
            yield ok(rule, at + '.name') if t.args[0].args[0] == names.split()[0] else bad(
                rule, at + '.name', 'the command is called %s, expected %s' % (t.args[0].args[0], names.split()[0]))
        else:
            yield und(rule, at + '.name', show(t, 4))
        f, cls = ctx.find(at + '.parser_kwargs')
        t = Interp(ctx.repo).run(f, selfcls=cls).outcome()
        try:
            if t.op != 'RET' or t.args[0].op != 'dict':
                raise NotUnderstood(show(t, 4))
            a = t.args[0].args
            kw = {const(k): v for k, v in zip(a[::2], a[1::2])}
            al = const(kw['aliases']) if 'aliases' in kw else []
            miss = [x for x in names.split()[1:] if x not in al]
            yield bad(rule, at + '.parser_kwargs', 'alias %s is missing' % miss[0]) if miss else ok(
                rule, at + '.parser_kwargs')
        except NotUnderstood as x:
            yield und(rule, at + '.parser_kwargs', str(x))


RULES = {'C25': [arguments, registry]}
