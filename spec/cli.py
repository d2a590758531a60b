"""Reference: shell commands (C25, C16, C17)."""
import glob
import os
import subprocess
import sys
from cate.util.cli import CommandError, run_main
from dedop.cli.main import (COMMAND_REGISTRY, _PROCESSOR_FACTORY, _WORKSPACE_MANAGER, CLI_DESCRIPTION, CLI_NAME,
                            _DOCS_URL, _LICENSE, _LICENSE_INFO_PATH, ExitException, _dir_size)
from dedop.model.exception import ProcessorException
from dedop.proc.sar import L1BProcessor
from dedop.ui.exception import WorkspaceError
from dedop.ui.workspace_manager import WorkspaceManager
from dedop.util.config import DEFAULT_CONFIG_FILE, get_config_path, get_config_value
from dedop.util.monitor import Monitor
from dedop.version import __version__


# ---------------------------------------------------------------- helpers of the reference

def workspace_of(args):
    if args.workspace_name:
        return args.workspace_name
    return _WORKSPACE_MANAGER.get_current_workspace().name


def workspace_and_config_of(args):
    workspace = workspace_of(args)
    config = args.config_name
    if workspace and not config:
        config = _WORKSPACE_MANAGER.get_current_config_name(workspace)
    return workspace, config


def given(workspace):
    if not workspace:
        raise CommandError('no current workspace')


def both(workspace, config):
    given(workspace)
    if not config:
        raise CommandError('no current configuration')


def make_workspace(name):
    _WORKSPACE_MANAGER.create_workspace(name)
    _WORKSPACE_MANAGER.set_current_workspace_name(name)
    return name


def default_workspace():
    if _WORKSPACE_MANAGER.workspace_exists('default'):
        return 'default'
    return make_workspace('default')


def make_config(workspace, config, exist_ok, cryosat):
    if not workspace:
        workspace = default_workspace()
    if exist_ok and _WORKSPACE_MANAGER.config_exists(workspace, config):
        return config
    _WORKSPACE_MANAGER.create_config(workspace, config, cryosat=cryosat)
    if config:
        _WORKSPACE_MANAGER.set_current_config_name(workspace, config)
    else:
        _WORKSPACE_MANAGER.set_current_config_name(workspace, '')
    return config


def default_config(workspace):
    return make_config(workspace, 'default', True, False)


def ask(question):
    answer = input(question).strip()
    return answer if answer else 'yes'


def unique(name, names):
    result = name
    n = 2
    while result in names:
        result = '%s_%d' % (name, n)
        n = n + 1
    return result


def unique_workspace(name):
    return unique(name, _WORKSPACE_MANAGER.get_workspace_names())


def unique_config(workspace, name):
    return unique(name, _WORKSPACE_MANAGER.get_config_names(workspace))


# ---------------------------------------------------------------- selection of workspace and configuration

@spec('dedop/cli/main.py:_get_workspace_name', props='C25')
def get_workspace_name(command_args):
    return workspace_of(command_args)


@spec('dedop/cli/main.py:_get_workspace_and_config_name', props='C25')
def get_workspace_and_config_name(command_args):
    return workspace_and_config_of(command_args)


@spec('dedop/cli/main.py:_input', props='C25')
def read_answer(prompt, default=None):
    answer = input(prompt).strip()
    return answer if answer else default


@spec('dedop/cli/main.py:_expand_wildcard_paths', props='C25')
def expand_wildcard_paths(inputs_files):
    found = []
    for pattern in inputs_files:
        if sys.version_info >= (3, 5):
            found.extend(glob.glob(pattern, recursive=True))
        else:
            found.extend(glob.glob(pattern))
    return found


@spec('dedop/cli/main.py:_require_upgrade', props='C25')
def require_upgrade(workspace_name, config_name):
    now = _WORKSPACE_MANAGER.get_all_config_version(workspace_name, config_name)
    new = _WORKSPACE_MANAGER.get_all_default_config_version()
    chd, cnf, cst = now
    chd2, cnf2, cst2 = new
    return chd < chd2 or cnf < cnf2 or cst < cst2


# ---------------------------------------------------------------- run

@spec('dedop/cli/main.py:RunProcessorCommand.execute', props='C25 C16')
def run_execute(self, command_args):
    try:
        if command_args.all_configs and command_args.config_name:
            raise CommandError('-a and -c')
        workspace, config = workspace_and_config_of(command_args)
        if not workspace:
            workspace = default_workspace()
        if command_args.all_configs:
            configs = _WORKSPACE_MANAGER.get_config_names(workspace)
            if not configs:
                raise CommandError('no configuration')
        else:
            if not config:
                config = default_config(workspace)
            configs = [config]
        inputs = command_args.inputs
        if not inputs:
            inputs = _WORKSPACE_MANAGER.get_input_paths(workspace)
        if not inputs:
            raise CommandError('no inputs')
        for config in configs:
            chd_file = _WORKSPACE_MANAGER.get_config_file(workspace, config, 'CHD')
            cnf_file = _WORKSPACE_MANAGER.get_config_file(workspace, config, 'CNF')
            cst_file = _WORKSPACE_MANAGER.get_config_file(workspace, config, 'CST')
            output_dir = command_args.output_dir
            if not output_dir:
                output_dir = _WORKSPACE_MANAGER.get_outputs_path(workspace, config)
            processor = _PROCESSOR_FACTORY(config, chd_file=chd_file, cnf_file=cnf_file, cst_file=cst_file,
                                           output_dir=output_dir, skip_l1bs=command_args.skip_l1bs)
            for name in inputs:
                processor.process(name, monitor=Monitor.NULL if command_args.quiet else self.new_monitor())
    except (WorkspaceError, ProcessorException) as error:
        raise CommandError(error)


# ---------------------------------------------------------------- workspaces

@spec('dedop/cli/main.py:ManageWorkspacesCommand.execute', props='C25')
def workspaces_execute(self, command_args):
    if hasattr(command_args, 'ws_command') and command_args.ws_command:
        return command_args.ws_command(command_args)
    command_args.ws_parser.print_help()


@spec('dedop/cli/main.py:ManageWorkspacesCommand.execute_add', props='C25 C16 C17')
def workspace_add(cls, command_args):
    try:
        _WORKSPACE_MANAGER.create_workspace(command_args.workspace_name)
        if command_args.workspace_name:
            _WORKSPACE_MANAGER.set_current_workspace_name(command_args.workspace_name)
        else:
            _WORKSPACE_MANAGER.set_current_workspace_name('')
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageWorkspacesCommand.execute_remove', props='C25 C16 C17')
def workspace_remove(cls, command_args):
    name = workspace_of(command_args)
    given(name)
    if command_args.yes or ask('remove workspace "%s"? [yes]' % name).lower() == 'yes':
        try:
            _WORKSPACE_MANAGER.delete_workspace(name)
            if name == _WORKSPACE_MANAGER.get_current_workspace().name:
                left = _WORKSPACE_MANAGER.get_workspace_names()
                if 'default' in left:
                    _WORKSPACE_MANAGER.set_current_workspace_name('default')
                elif len(left) > 0 and left[0]:
                    _WORKSPACE_MANAGER.set_current_workspace_name(left[0])
                else:
                    _WORKSPACE_MANAGER.set_current_workspace_name('')
        except WorkspaceError as error:
            raise CommandError(error)


@spec('dedop/cli/main.py:ManageWorkspacesCommand.execute_copy', props='C25 C16')
def workspace_copy(cls, command_args):
    name = workspace_of(command_args)
    given(name)
    new_name = unique_workspace(command_args.new_name if command_args.new_name else name + '_1')
    try:
        _WORKSPACE_MANAGER.copy_workspace(name, new_name)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageWorkspacesCommand.execute_rename', props='C25 C16 C17')
def workspace_rename(cls, command_args):
    name = workspace_of(command_args)
    given(name)
    new_name = unique_workspace(command_args.new_name)
    try:
        _WORKSPACE_MANAGER.rename_workspace(name, new_name)
        if name == _WORKSPACE_MANAGER.get_current_workspace().name:
            if new_name:
                _WORKSPACE_MANAGER.set_current_workspace_name(new_name)
            else:
                _WORKSPACE_MANAGER.set_current_workspace_name('')
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageWorkspacesCommand.execute_current', props='C25 C16 C17')
def workspace_current(cls, command_args):
    try:
        if command_args.workspace_name:
            _WORKSPACE_MANAGER.set_current_workspace_name(command_args.workspace_name)
        else:
            _WORKSPACE_MANAGER.get_current_workspace()
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageWorkspacesCommand.create_default_workspace', props='C25')
def create_default_workspace(cls):
    return default_workspace()


@spec('dedop/cli/main.py:ManageWorkspacesCommand.create_workspace', props='C25')
def create_workspace_command(cls, workspace_name, exists_ok=False):
    if exists_ok and _WORKSPACE_MANAGER.workspace_exists(workspace_name):
        return workspace_name
    _WORKSPACE_MANAGER.create_workspace(workspace_name)
    if workspace_name:
        _WORKSPACE_MANAGER.set_current_workspace_name(workspace_name)
    else:
        _WORKSPACE_MANAGER.set_current_workspace_name('')
    return workspace_name


@spec('dedop/cli/main.py:ManageWorkspacesCommand.ensure_unique_name', props='C25')
def unique_workspace_name(cls, new_name):
    return unique_workspace(new_name)


# ---------------------------------------------------------------- configurations

@spec('dedop/cli/main.py:ManageConfigsCommand.execute', props='C25')
def configs_execute(self, command_args):
    if hasattr(command_args, 'cf_command') and command_args.cf_command:
        return command_args.cf_command(command_args)
    command_args.cf_parser.print_help()


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_add', props='C25 C16 C17')
def config_add(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    try:
        make_config(workspace, config, False, command_args.cryosat_adapted)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_remove', props='C25 C16 C17')
def config_remove(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    both(workspace, config)
    if command_args.yes or ask('remove DDP configuration "%s"? [yes]' % config).lower() == 'yes':
        try:
            _WORKSPACE_MANAGER.delete_config(workspace, config)
            if config == _WORKSPACE_MANAGER.get_current_config_name(workspace):
                left = _WORKSPACE_MANAGER.get_config_names(workspace)
                if 'default' in left:
                    _WORKSPACE_MANAGER.set_current_config_name(workspace, 'default')
                elif len(left) > 0 and left[0]:
                    _WORKSPACE_MANAGER.set_current_config_name(workspace, left[0])
                else:
                    _WORKSPACE_MANAGER.set_current_config_name(workspace, '')
        except WorkspaceError as error:
            raise CommandError(error)


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_copy', props='C25 C16')
def config_copy(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    both(workspace, config)
    new_name = unique_config(workspace, command_args.new_name if command_args.new_name else config + '_copy')
    try:
        _WORKSPACE_MANAGER.copy_config(workspace, config, new_name)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_rename', props='C25 C16 C17')
def config_rename(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    both(workspace, config)
    new_name = unique_config(workspace, command_args.new_name)
    try:
        _WORKSPACE_MANAGER.rename_config(workspace, config, new_name)
        if config == _WORKSPACE_MANAGER.get_current_config_name(workspace):
            if new_name:
                _WORKSPACE_MANAGER.set_current_config_name(workspace, new_name)
            else:
                _WORKSPACE_MANAGER.set_current_config_name(workspace, '')
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_edit', props='C25')
def config_edit(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    try:
        if not workspace:
            workspace = default_workspace()
        if not config:
            config = default_config(workspace)
        chd_file = _WORKSPACE_MANAGER.get_config_file(workspace, config, 'CHD')
        cnf_file = _WORKSPACE_MANAGER.get_config_file(workspace, config, 'CNF')
        cst_file = _WORKSPACE_MANAGER.get_config_file(workspace, config, 'CST')
        _WORKSPACE_MANAGER.open_file(chd_file)
        _WORKSPACE_MANAGER.open_file(cnf_file)
        _WORKSPACE_MANAGER.open_file(cst_file)
    except (WorkspaceError, OSError) as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_current', props='C25 C16 C17')
def config_current(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    if not workspace:
        workspace = 'default'
    try:
        if config:
            _WORKSPACE_MANAGER.set_current_config_name(workspace, config)
        else:
            _WORKSPACE_MANAGER.get_current_config_name(workspace)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_info', props='C25')
def config_info(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    both(workspace, config)
    path = _WORKSPACE_MANAGER.get_config_path(workspace, config)
    if sys.platform.startswith('win'):
        subprocess.check_call('dir /A-D "%s"' % path, shell=True)
    else:
        subprocess.check_call('ls "%s"' % path, shell=True)


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_upgrade', props='C25 C16')
def config_upgrade(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    both(workspace, config)
    try:
        chd, cnf, cst = _WORKSPACE_MANAGER.get_all_config_version(workspace, config)
        chd2, cnf2, cst2 = _WORKSPACE_MANAGER.get_all_default_config_version()
        if chd < chd2 or cnf < cnf2 or cst < cst2:
            _WORKSPACE_MANAGER.upgrade_all_config(workspace, config)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_version', props='C25')
def config_version(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    given(workspace)
    _WORKSPACE_MANAGER.get_all_config_version(workspace, config)


@spec('dedop/cli/main.py:ManageConfigsCommand.create_default_config', props='C25')
def create_default_config(cls, workspace_name):
    return default_config(workspace_name)


@spec('dedop/cli/main.py:ManageConfigsCommand.create_config', props='C25')
def create_config_command(cls, workspace_name, config_name, exist_ok=True, cryosat=False):
    return make_config(workspace_name, config_name, exist_ok, cryosat)


@spec('dedop/cli/main.py:ManageConfigsCommand.ensure_unique_name', props='C25')
def unique_config_name(cls, workspace_name, new_name):
    return unique_config(workspace_name, new_name)


# ---------------------------------------------------------------- inputs

@spec('dedop/cli/main.py:ManageInputsCommand.execute', props='C25')
def inputs_execute(self, command_args):
    if hasattr(command_args, 'mi_command') and command_args.mi_command:
        return command_args.mi_command(command_args)
    command_args.mi_parser.print_help()


@spec('dedop/cli/main.py:ManageInputsCommand.execute_add', props='C25 C16')
def inputs_add(cls, command_args):
    workspace = workspace_of(command_args)
    inputs = command_args.inputs
    if not inputs:
        inputs = [os.path.join('.', '*.nc')]
    found = []
    for pattern in inputs:
        if sys.version_info >= (3, 5):
            found.extend(glob.glob(pattern, recursive=True))
        else:
            found.extend(glob.glob(pattern))
    if not found:
        raise CommandError('no matching inputs')
    monitor = Monitor.NULL if command_args.quiet else cls.new_monitor()
    try:
        if not workspace:
            workspace = default_workspace()
        _WORKSPACE_MANAGER.add_inputs(workspace, found, monitor)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageInputsCommand.execute_remove', props='C25 C16')
def inputs_remove(cls, command_args):
    workspace = workspace_of(command_args)
    given(workspace)
    pattern = command_args.inputs if command_args.inputs else '*.nc'
    names = _WORKSPACE_MANAGER.get_input_names(workspace, pattern=pattern)
    if not names:
        raise CommandError('no matching inputs')
    monitor = Monitor.NULL if command_args.quiet else cls.new_monitor()
    if command_args.quiet or ask('delete inputs "%s"? [yes]' % names).lower().lower() == 'yes':
        try:
            _WORKSPACE_MANAGER.remove_inputs(workspace, names, monitor)
        except WorkspaceError as error:
            raise CommandError(error)


@spec('dedop/cli/main.py:ManageInputsCommand.execute_list', props='C25', prints=True)
def inputs_list(cls, command_args):
    workspace = workspace_of(command_args)
    given(workspace)
    names = _WORKSPACE_MANAGER.get_input_names(workspace, pattern=command_args.pattern)
    if len(names) == 0:
        print('no inputs in workspace "%s"' % workspace)
    elif len(names) == 1:
        print('1 input in workspace "%s":' % workspace)
    else:
        print('%d inputs in workspace "%s":' % (len(names), workspace))
    for i in range(len(names)):
        print('%3d: %s' % (i + 1, names[i]))


@spec('dedop/cli/main.py:ManageWorkspacesCommand.execute_list', props='C25', prints=True)
def workspaces_list(cls, command_args):
    names = _WORKSPACE_MANAGER.get_workspace_names()
    if len(names) == 0:
        print('no workspaces')
    elif len(names) == 1:
        print('1 workspace:')
    else:
        print('%d workspaces:' % len(names))
    for i in range(len(names)):
        print('%3d: %s' % (i + 1, names[i]))


@spec('dedop/cli/main.py:ManageConfigsCommand.execute_list', props='C25', prints=True)
def configs_list(cls, command_args):
    workspace = workspace_of(command_args)
    given(workspace)
    names = _WORKSPACE_MANAGER.get_config_names(workspace)
    n = len(names) if names else 0
    if n == 0:
        print('no DDP configurations in workspace "%s"' % workspace)
    elif n == 1:
        print('1 DDP configuration in workspace "%s":' % workspace)
    else:
        print('%d DDP configurations in workspace "%s":' % (n, workspace))
    for i in range(n):
        print('%3d: %s' % (i + 1, names[i]))


# ---------------------------------------------------------------- outputs

@spec('dedop/cli/main.py:ManageOutputsCommand.execute', props='C25')
def outputs_execute(self, command_args):
    if hasattr(command_args, 'mo_command') and command_args.mo_command:
        return command_args.mo_command(command_args)
    command_args.mo_parser.print_help()


@spec('dedop/cli/main.py:ManageOutputsCommand.execute_clean', props='C25 C16')
def outputs_clean(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    both(workspace, config)
    if not _WORKSPACE_MANAGER.get_output_names(workspace, config):
        raise CommandError('no matching outputs')
    if command_args.quiet or ask('clean outputs directory? [yes]').lower() == 'yes':
        try:
            _WORKSPACE_MANAGER.remove_outputs(workspace, config)
        except WorkspaceError as error:
            raise CommandError(error)


@spec('dedop/cli/main.py:ManageOutputsCommand.execute_open', props='C25')
def outputs_open(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    both(workspace, config)
    try:
        folder = _WORKSPACE_MANAGER.get_outputs_path(workspace, config)
        if os.path.exists(folder):
            _WORKSPACE_MANAGER.open_file(folder)
    except WorkspaceError as error:
        raise CommandError(error)


def product_path(filename, workspace, config):
    if os.path.dirname(filename):
        path = os.path.abspath(filename)
    else:
        if not config:
            raise CommandError('no current configuration')
        path = _WORKSPACE_MANAGER.get_outputs_path(workspace, config, filename)
    if not os.path.exists(path):
        raise CommandError('not found')
    return path


@spec('dedop/cli/main.py:ManageOutputsCommand.execute_inspect', props='C25 C27')
def outputs_inspect(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    try:
        if not workspace:
            workspace = default_workspace()
        path = product_path(command_args.l1b_filename, workspace, config)
        _WORKSPACE_MANAGER.inspect_l1b_product(workspace, path)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageOutputsCommand.execute_compare', props='C25 C27')
def outputs_compare(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    try:
        if not workspace:
            workspace = default_workspace()
        workspace2 = command_args.workspace_name_2 if command_args.workspace_name_2 else workspace
        config2 = command_args.config_name_2 if command_args.config_name_2 else config
        name1 = command_args.l1b_filename_1
        name2 = command_args.l1b_filename_2 if command_args.l1b_filename_2 else name1
        path1 = product_path(name1, workspace, config)
        if not os.path.dirname(name2) and not workspace2:
            raise CommandError('no current workspace')
        path2 = product_path(name2, workspace2, config2)
        os.path.samefile(path1, path2)
        _WORKSPACE_MANAGER.compare_l1b_products(workspace, path1, path2)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:ManageOutputsCommand.execute_list', props='C25', prints=True)
def outputs_list(cls, command_args):
    workspace, config = workspace_and_config_of(command_args)
    both(workspace, config)
    names = _WORKSPACE_MANAGER.get_output_names(workspace, config, pattern=command_args.pattern)
    if len(names) == 0:
        print('no outputs created with config "%s" in workspace "%s"' % (config, workspace))
    elif len(names) == 1:
        print('1 output created with config "%s" in workspace "%s":' % (config, workspace))
    else:
        print('%d outputs created with config "%s" in workspace "%s":' % (len(names), config, workspace))
    for i in range(len(names)):
        print('%3d: %s' % (i + 1, names[i]))


@spec('dedop/cli/main.py:ShowStatusCommand.execute', props='C25', prints=True, pure='_dir_size')
def status_execute(self, command_args):
    if command_args.long:
        print('warning: option "--long" not yet supported')
    folder = _WORKSPACE_MANAGER.workspaces_dir
    workspace = '(not set)'
    config = '(not set)'
    if os.path.exists(folder):
        names = _WORKSPACE_MANAGER.get_workspace_names()
        names = ', '.join(names) if names else '(not set)'
        current = _WORKSPACE_MANAGER.get_current_workspace().name
        if current:
            workspace = current
            current_config = _WORKSPACE_MANAGER.get_current_config_name(current)
            if current_config:
                config = current_config
        try:
            size = '%s MiB' % (_dir_size(folder) >> 20)
        except (WorkspaceError, IOError, OSError) as error:
            size = '(error: %s)' % str(error)
    else:
        folder = '(not yet created)'
        size = '(not yet created)'
        names = '(not yet created)'
    print('configuration location:     %s' % DEFAULT_CONFIG_FILE)
    print('workspaces location:        %s' % folder)
    print('workspaces total size:      %s' % size)
    print('workspace names:            %s' % names)
    print('current workspace:          %s' % workspace)
    print('current DDP configuration:  %s' % config)


@spec('dedop/cli/main.py:NoExitArgumentParser.exit', props='C25')
def parser_exit(self, status=0, message=None):
    raise ExitException(status, message)


# ---------------------------------------------------------------- other commands

@spec('dedop/cli/main.py:OpenNotebookCommand.execute', props='C25 C16')
def notebook_execute(self, command_args):
    folder = _WORKSPACE_MANAGER.workspaces_dir
    if not os.path.exists(folder):
        try:
            os.makedirs(folder)
        except OSError as error:
            raise CommandError(error)
    try:
        _WORKSPACE_MANAGER.launch_notebook('Notebook', folder)
    except WorkspaceError as error:
        raise CommandError(error)


@spec('dedop/cli/main.py:main', props='C25', pure='get_config_value get_config_path')
def cli_main(args=None, workspace_manager=None, processor_factory=None):
    import dedop.cli.main as cli

    def new_processor(name, cnf_file=None, cst_file=None, chd_file=None, output_dir='.', skip_l1bs=True):
        return L1BProcessor(name, cnf_file, cst_file, chd_file, output_dir, skip_l1bs)
    if not processor_factory:
        processor_factory = get_config_value('processor_factory')
    cli._PROCESSOR_FACTORY = processor_factory if processor_factory else new_processor
    folder = get_config_path('workspaces_dir')
    cli._WORKSPACE_MANAGER = workspace_manager if workspace_manager else WorkspaceManager(workspaces_dir=folder)
    return run_main(CLI_NAME, CLI_DESCRIPTION, __version__, COMMAND_REGISTRY, license_text=_LICENSE,
                    docs_url=_DOCS_URL, args=args)
