"""Reference: workspaces on disk (C14, C15, C16, C17)."""
import collections
import fnmatch
import json
import ntpath
import os
import pkgutil
import shutil
from dedop.ui.workspace import Workspace
from dedop.ui.exception import WorkspaceError
from dedop.ui.workspace_manager import WorkspaceManager, _readline, _writeline


def ws_dir(self, name):
    return os.path.join(self._workspaces_dir, name)


def cfg_dir(self, ws, name):
    return os.path.join(self._workspaces_dir, ws, 'configs', name)


def need_ws(self, name):
    if not os.path.exists(ws_dir(self, name)):
        raise WorkspaceError('no such workspace')


def need_cfg(self, ws, name):
    if not os.path.exists(cfg_dir(self, ws, name)):
        raise WorkspaceError('no such configuration')


@spec('dedop/ui/workspace_manager.py:_readline', props='C16 C17')
def read_current(file_path):
    if os.path.exists(file_path) and os.path.isfile(file_path):
        try:
            with open(file_path, 'r') as fp:
                return fp.readline()
        except OSError as e:
            raise WorkspaceError(str(e))
    return None


@spec('dedop/ui/workspace_manager.py:_writeline', props='C16 C17')
def write_current(file_path, text):
    try:
        with open(file_path, 'w') as fp:
            fp.write(text)
    except OSError as e:
        raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.delete_all_workspaces', props='C15 C16')
def delete_all(self):
    if os.path.isdir(self._workspaces_dir):
        try:
            shutil.rmtree(self._workspaces_dir)
        except OSError as e:
            raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.set_current_workspace_name', props='C17 C16', opaque='_writeline')
def set_current_workspace(self, name):
    need_ws(self, name)
    _writeline(os.path.join(self._workspaces_dir, '.current'), name)
    return Workspace(ws_dir(self, name), name, is_current=True)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_current_workspace', props='C17', opaque='_readline')
def get_current_workspace(self):
    return Workspace(None, _readline(os.path.join(self._workspaces_dir, '.current')))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.workspace_exists', props='C15 C17')
def workspace_exists(self, name):
    return os.path.exists(ws_dir(self, name))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.create_workspace', props='C15 C16')
def create_workspace(self, name):
    if not name:
        raise WorkspaceError('no name')
    d = ws_dir(self, name)
    if os.path.isdir(d) and os.listdir(d):
        raise WorkspaceError('exists')
    if not os.path.exists(d):
        try:
            os.makedirs(d, exist_ok=True)
        except OSError as e:
            raise WorkspaceError(str(e))
    return Workspace(d, name)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.delete_workspace', props='C15 C16')
def delete_workspace(self, name):
    if not name:
        raise WorkspaceError('no name')
    need_ws(self, name)
    try:
        shutil.rmtree(ws_dir(self, name))
    except OSError as e:
        raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.copy_workspace', props='C15 C16')
def copy_workspace(self, name, new):
    need_ws(self, name)
    base = os.path.join(self._workspaces_dir, '')
    if os.path.exists(base):
        try:
            shutil.copytree(os.path.join(base, name), os.path.join(base, new))
        except OSError as e:
            raise WorkspaceError(str(e))
    return Workspace(ws_dir(self, new), new)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.rename_workspace', props='C15 C16')
def rename_workspace(self, name, new):
    need_ws(self, name)
    if not new:
        raise WorkspaceError('no name')
    if os.path.exists(ws_dir(self, new)):
        raise WorkspaceError('exists')
    base = os.path.join(self._workspaces_dir, '')
    if os.path.exists(base):
        try:
            shutil.move(os.path.join(base, name), os.path.join(base, new))
        except OSError as e:
            raise WorkspaceError(str(e))
    return Workspace(ws_dir(self, new), new)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_workspace_names', props='C17 C25')
def get_workspace_names(self):
    d = self._workspaces_dir
    if os.path.exists(d):
        return sorted([n for n in os.listdir(d) if os.path.isdir(os.path.join(d, n))])
    return []


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_workspaces', props='C26')
def get_workspaces(self):
    d = self._workspaces_dir
    if os.path.exists(d):
        out = [Workspace(os.path.join(d, n), n).to_json_dict() if n != '.current' else None for n in os.listdir(d)]
        return list(filter(None, out))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.config_exists', props='C15 C17')
def config_exists(self, ws, name):
    d = cfg_dir(self, ws, name)
    return os.path.isdir(d) and os.listdir(d)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.create_config', props='C15 C16 C14')
def create_config(self, ws, name, cryosat=False):
    need_ws(self, ws)
    d = cfg_dir(self, ws, name)
    if os.path.isdir(d) and os.listdir(d):
        raise WorkspaceError('exists')
    if not os.path.exists(d):
        try:
            os.makedirs(d, exist_ok=True)
        except OSError as e:
            raise WorkspaceError(str(e))
    package = 'dedop.ui.data.cryosat_config' if cryosat else 'dedop.ui.data.config'
    for f in ('CHD.json', 'CNF.json', 'CST.json'):
        try:
            with open(os.path.join(d, f), 'wb') as fp:
                fp.write(pkgutil.get_data(package, f))
        except OSError as e:
            raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.delete_config', props='C15 C16')
def delete_config(self, ws, name):
    if not name:
        raise WorkspaceError('no name')
    need_ws(self, ws)
    need_cfg(self, ws, name)
    try:
        shutil.rmtree(cfg_dir(self, ws, name))
    except OSError as e:
        raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.copy_config', props='C15 C16')
def copy_config(self, ws, name, new):
    need_ws(self, ws)
    need_cfg(self, ws, name)
    try:
        shutil.copytree(cfg_dir(self, ws, name), cfg_dir(self, ws, new))
    except OSError as e:
        raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.rename_config', props='C15 C16')
def rename_config(self, ws, name, new):
    need_ws(self, ws)
    need_cfg(self, ws, name)
    if os.path.exists(cfg_dir(self, ws, new)):
        raise WorkspaceError('exists')
    try:
        os.rename(cfg_dir(self, ws, name), cfg_dir(self, ws, new))
    except OSError as e:
        raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_config_file', props='C14 C15 C26')
def get_config_file(self, ws, name, key):
    return os.path.join(self._workspaces_dir, ws, 'configs', name, key + '.json')


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_config_json', props='C14 C26', opaque='_open_config_json')
def get_config_json(self, ws, name, key):
    data = WorkspaceManager._open_config_json(os.path.join(self._workspaces_dir, ws, 'configs', name, key + '.json'))
    return data, sorted([n for n in data], key=str.lower)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager._open_config_json', props='C14')
def open_config_json(file_path):
    with open(file_path) as f:
        return json.load(f, object_pairs_hook=collections.OrderedDict)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.write_config_file', props='C14 C15 C16 C26')
def write_config_file(self, ws, name, key, text):
    try:
        with open(os.path.join(self._workspaces_dir, ws, 'configs', name, key + '.json'), 'r+') as f:
            f.seek(0)
            f.write(text)
            f.truncate()
    except OSError as e:
        raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_config_names', props='C17 C25')
def get_config_names(self, ws):
    need_ws(self, ws)
    d = os.path.join(self._workspaces_dir, ws, 'configs')
    if os.path.exists(d):
        return sorted([n for n in os.listdir(d) if os.path.isdir(os.path.join(d, n))])
    return None


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_current_config_name', props='C17', opaque='_readline')
def get_current_config_name(self, ws):
    need_ws(self, ws)
    return _readline(os.path.join(self._workspaces_dir, ws, 'configs', '.current'))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.set_current_config_name', props='C17 C16', opaque='_writeline')
def set_current_config_name(self, ws, name):
    need_ws(self, ws)
    need_cfg(self, ws, name)
    _writeline(os.path.join(self._workspaces_dir, ws, 'configs', '.current'), name)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_config_version', props='C14', opaque='get_config_json')
def get_config_version(self, ws, name, key):
    config, _ = self.get_config_json(ws, name, key)
    if '__metainf__' in config:
        return config['__metainf__']['version']
    return -1


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_all_config_version', props='C14', opaque='get_config_version')
def get_all_config_version(self, ws, name):
    a = self.get_config_version(ws, name, 'CHD')
    b = self.get_config_version(ws, name, 'CNF')
    c = self.get_config_version(ws, name, 'CST')
    return a, b, c


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_default_config_version', props='C14',
      opaque='_get_default_config')
def get_default_config_version(self, key):
    config = self._get_default_config(key)
    if '__metainf__' in config:
        return config['__metainf__']['version']
    return -1


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_all_default_config_version', props='C14',
      opaque='get_default_config_version')
def get_all_default_config_version(self):
    a = self.get_default_config_version('CHD')
    b = self.get_default_config_version('CNF')
    c = self.get_default_config_version('CST')
    return a, b, c


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.upgrade_all_config', props='C14', opaque='upgrade_config')
def upgrade_all(self, ws, name):
    a = self.upgrade_config(ws, name, 'CHD')
    b = self.upgrade_config(ws, name, 'CNF')
    c = self.upgrade_config(ws, name, 'CST')
    return a, b, c


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.upgrade_config', props='C14',
      opaque='get_config_json _get_default_config _do_upgrade_config write_config_file')
def upgrade_one(self, ws, name, key):
    config, _ = self.get_config_json(ws, name, key)
    result = self._do_upgrade_config(config, self._get_default_config(key))
    text = json.dumps(result, indent=4, separators=(',', ': '), sort_keys=True)
    self.write_config_file(ws, name, key, text)
    return result['__metainf__']['version'] if '__metainf__' in result else -1


@spec('dedop/ui/workspace_manager.py:WorkspaceManager._do_upgrade_config', props='C14')
def upgrade_changes(current, default):
    """apply the changelog entries newer than the configuration, last change of a parameter wins"""
    try:
        version = current['__metainf__']['version']
    except KeyError:
        version = -1
    if version >= default['__metainf__']['version']:
        return current
    take = []
    drop = []
    for change in default['__metainf__']['changelog']:
        if change['version'] > version:
            for p in change['parameters']:
                if p[1] == '*' or p[1] == '+':
                    if p[0] in drop:
                        drop.remove(p[0])
                    if p[0] not in take:
                        take.append(p[0])
                elif p[1] == '-':
                    if p[0] in take:
                        take.remove(p[0])
                    if p[0] not in drop:
                        drop.append(p[0])
    for k in take:
        current[k] = default[k]
    for k in drop:
        if k in current:
            current.pop(k)
    current['__metainf__'] = default['__metainf__']
    return current


@spec('dedop/ui/workspace_manager.py:WorkspaceManager._get_default_config', props='C14')
def default_config(key):
    return json.loads(pkgutil.get_data('dedop.ui.data.config', key + '.json').decode('utf-8'),
                      object_pairs_hook=collections.OrderedDict)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.add_inputs', props='C15 C16 C18')
def add_inputs(self, ws, paths, monitor):
    d = os.path.join(self._workspaces_dir, ws, 'inputs')
    if not os.path.exists(d):
        try:
            os.makedirs(d, exist_ok=True)
        except OSError as e:
            raise WorkspaceError(str(e))
    with monitor.starting('adding inputs', len(paths)):
        for p in paths:
            try:
                shutil.copy(p, os.path.join(d, os.path.basename(p)))
            except OSError as e:
                raise WorkspaceError(str(e))
            monitor.progress(1)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.remove_inputs', props='C15 C16 C18')
def remove_inputs(self, ws, names, monitor):
    paths = [os.path.join(self._workspaces_dir, ws, 'inputs', n) for n in names]
    with monitor.starting('removing inputs', len(paths)):
        for p in paths:
            if os.path.exists(p):
                try:
                    os.remove(p)
                except OSError as e:
                    raise WorkspaceError(str(e))
            monitor.progress(1)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_input_names', props='C25', opaque='get_nc_filename_list')
def get_input_names(self, ws, pattern=None):
    d = os.path.join(self._workspaces_dir, ws, 'inputs')
    if os.path.exists(d):
        return self.get_nc_filename_list(d, pattern)
    return []


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_input_paths', props='C25', opaque='get_input_names')
def get_input_paths(self, ws):
    return [os.path.join(self._workspaces_dir, ws, 'inputs', n) for n in self.get_input_names(ws)]


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_outputs_path', props='C15 C25')
def get_outputs_path(self, ws, name, *paths):
    return os.path.join(self._workspaces_dir, ws, 'configs', name, 'outputs', *paths)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_inputs_path', props='C15 C25')
def get_inputs_path(self, ws, *paths):
    return os.path.join(self._workspaces_dir, ws, 'inputs', *paths)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.remove_outputs', props='C15 C16')
def remove_outputs(self, ws, name):
    d = os.path.join(self._workspaces_dir, ws, 'configs', name, 'outputs')
    if not os.path.exists(d):
        raise WorkspaceError('no outputs')
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.exists(p):
            try:
                os.remove(p)
            except OSError as e:
                raise WorkspaceError(str(e))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_output_names', props='C25', opaque='get_nc_filename_list')
def get_output_names(self, ws, name, pattern=None):
    d = os.path.join(self._workspaces_dir, ws, 'configs', name, 'outputs')
    if os.path.exists(d):
        return self.get_nc_filename_list(d, pattern)
    return []


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_notebook_names', props='C25')
def get_notebook_names(self, ws):
    need_ws(self, ws)
    d = os.path.join(self._workspaces_dir, ws, 'notebooks')
    if os.path.exists(d):
        return sorted([n for n in os.listdir(d) if n.endswith('.ipynb') and os.path.isfile(os.path.join(d, n))])
    return []


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.get_nc_filename_list', props='C25')
def get_nc_filename_list(directory, pattern):
    names = [n for n in os.listdir(directory) if n.endswith('.nc') and os.path.isfile(os.path.join(directory, n))]
    if isinstance(pattern, str):
        names = [n for n in names if fnmatch.fnmatch(n, pattern)]
    elif pattern:
        chosen = []
        for n in names:
            for p in pattern:
                if fnmatch.fnmatch(n, p):
                    chosen.append(n)
        names = chosen
    return sorted(names)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager._launch_notebook_from_template', props='C15 C16 C27',
      opaque='launch_notebook')
def notebook_from_template(self, ws, basename, text, title):
    d = os.path.join(self._workspaces_dir, ws, 'notebooks')
    if not os.path.exists(d):
        try:
            os.mkdir(d)
        except OSError as e:
            raise WorkspaceError(str(e))
    n = 0
    while True:
        n += 1
        path = os.path.join(d, '%s-%d.ipynb' % (basename, n))
        if not os.path.exists(path):
            break
    try:
        with open(path, 'w') as fp:
            fp.write(text)
    except OSError as e:
        raise WorkspaceError(str(e))
    self.launch_notebook(title, d, notebook_path=path)


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.inspect_l1b_product', props='C27',
      opaque='_launch_notebook_from_template _limit_title')
def inspect_notebook(self, ws, path):
    text = pkgutil.get_data('dedop.ui.data.notebooks', 'inspect-template.ipynb').decode('utf-8')
    text = text.replace('__L1B_FILE_PATH__', repr(path).replace('\\', '\\\\'))
    return self._launch_notebook_from_template(ws, 'inspect-%s' % ntpath.basename(path), text,
                                               'inspect - [%s]' % self._limit_title(path, 60))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.compare_l1b_products', props='C27',
      opaque='_launch_notebook_from_template _limit_title')
def compare_notebook(self, ws, path_1, path_2):
    text = pkgutil.get_data('dedop.ui.data.notebooks', 'compare-template.ipynb').decode('utf-8')
    text = text.replace('__L1B_FILE_PATH_1__', repr(path_1).replace('\\', '\\\\'))
    text = text.replace('__L1B_FILE_PATH_2__', repr(path_2).replace('\\', '\\\\'))
    return self._launch_notebook_from_template(
        ws, 'compare-%s-%s' % (ntpath.basename(path_1), ntpath.basename(path_2)), text,
        'compare - [%s] [%s]' % (self._limit_title(path_1, 30), self._limit_title(path_2, 30)))
