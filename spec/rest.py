"""Reference: remaining functions (workspace descriptions, launching, parameters, globals)."""
import os
import shutil
import stat
import subprocess
import sys
from collections import OrderedDict
from datetime import date, timedelta
import dedop.util.config
from cate.util.web import JsonRpcWebSocketHandler
from cate.util.web.webapi import url_pattern, WebAPIExitHandler
from tornado.web import Application
from dedop.conf.defaults import DEFAULT_DATA_PATH, DEFAULT_WORKSPACE_PATH, WEBAPI_PROGRESS_DEFER_PERIOD
from dedop.ui.exception import WorkspaceError
from dedop.ui.workspace_manager import DEFAULT_TEMP_DIR, DEFAULT_WORKSPACES_DIR, WorkspaceManager
from dedop.util.config import DEFAULT_CONFIG_FILE, _CONFIG, get_config_value, read_python_config, write_default_config_file
from dedop.util.parameter import Parameter
from dedop.version import __version__
from dedop.webapi.main import CLI_NAME, WebAPIVersionHandler, service_factory


# ---------------------------------------------------------------- workspaces

@spec('dedop/ui/workspace.py:Workspace.__init__', props='C26')
def workspace_init(self, workspace_dir, name, is_current=False):
    if workspace_dir:
        self._workspace_dir = workspace_dir
    elif name:
        self._workspace_dir = os.path.join(DEFAULT_DATA_PATH, 'workspaces', name)
    else:
        self._workspace_dir = DEFAULT_WORKSPACE_PATH
    self._name = name
    self._is_current = is_current


@spec('dedop/ui/workspace.py:Workspace.name', props='C26')
def workspace_name(self):
    return self._name


@spec('dedop/ui/workspace.py:Workspace.is_current', props='C26')
def workspace_is_current(self):
    return self._is_current


@spec('dedop/ui/workspace.py:Workspace.workspace_dir', props='C26')
def workspace_dir(self):
    return self._workspace_dir


@spec('dedop/ui/workspace.py:Workspace.to_json_dict', props='C26')
def workspace_to_json(self):
    return OrderedDict([('workspace_dir', self._workspace_dir), ('name', self._name), ('is_current', self._is_current)])


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.__init__', props='C15 C25')
def manager_init(self, workspaces_dir=None):
    if workspaces_dir:
        self._workspaces_dir = workspaces_dir
    else:
        self._workspaces_dir = DEFAULT_WORKSPACES_DIR


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.workspaces_dir', props='C15 C25')
def manager_dir(self):
    return self._workspaces_dir


@spec('dedop/ui/workspace_manager.py:WorkspaceManager._limit_title', props='C27')
def limit_title(cls, name, max_len, mode='r'):
    assert name
    assert max_len > 3
    assert mode == 'r' or mode == 'l'
    if len(name) <= max_len:
        return name
    if mode == 'r':
        return '...' + name[3 - max_len:]
    return name[:max_len - 3] + '...'


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.open_file', props='C16 C25', pure='get_config_value')
def open_file(cls, path):
    template = get_config_value('launch_editor_command', None)
    if template:
        if not (isinstance(template, str) and template.strip()):
            raise WorkspaceError('setting')
        template = template.strip()
    else:
        try:
            os.startfile(path)
            return
        except AttributeError:
            if shutil.which('xdg-open'):
                template = 'xdg-open "{file}"'
            elif shutil.which('open'):
                template = 'open "{file}"'
            else:
                return
    try:
        subprocess.call(template.format(file=path), shell=True)
    except (IOError, OSError) as error:
        raise WorkspaceError(str(error))


@spec('dedop/ui/workspace_manager.py:WorkspaceManager.launch_notebook', props='C16 C25 C27', pure='get_config_value')
def launch_notebook(cls, title, notebook_dir, notebook_path=None):
    full_title = 'DeDop - %s' % title
    command = 'jupyter notebook --notebook-dir "%s"' % notebook_dir
    prefixed = '{prefix}/bin/{notebook_command}'.format(prefix=sys.prefix, notebook_command=command)
    if notebook_path:
        command += ' "%s"' % notebook_path
        prefixed += ' "%s"' % notebook_path
    template = get_config_value('launch_notebook_command', None)
    if template:
        if isinstance(template, str) and template.strip():
            template = template.strip()
        else:
            template = None
        if not template:
            raise WorkspaceError('setting')
        get_config_value('launch_notebook_in_new_terminal', False)
    elif sys.platform.startswith('win'):
        template = 'start "{title}" /Min "{command_file}"'
    elif sys.platform == 'darwin':
        template = 'open -a Terminal "{command_file}"'
    elif shutil.which("konsole"):
        template = 'konsole -p tabtitle="{title}" -e \'{command}\' & disown'
    elif shutil.which("gnome-terminal"):
        template = 'gnome-terminal -e \'{command}\''
    elif shutil.which("xterm"):
        template = 'xterm  -T "{title}" -e \'{command}\''
    else:
        template = prefixed
    command_file = ''
    if '{command_file}' in template:
        try:
            if not os.path.exists(DEFAULT_TEMP_DIR):
                os.makedirs(DEFAULT_TEMP_DIR)
            if sys.platform.startswith('win'):
                command_file = os.path.join(DEFAULT_TEMP_DIR, 'dedop-notebook-server' + '.bat')
                with open(command_file, 'w') as fp:
                    fp.write('call "{prefix}/Scripts/activate.bat" "{prefix}"\n'
                             'call {command}\n'.format(prefix=sys.prefix, command=command))
            else:
                command_file = os.path.join(DEFAULT_TEMP_DIR, 'dedop-notebook-server')
                with open(command_file, 'w') as fp:
                    fp.write('#!/bin/bash\n'
                             'source "{prefix}/bin/activate" "{prefix}"\n'
                             '{command}\n'.format(prefix=sys.prefix, command=command))
                os.chmod(command_file, stat.S_IEXEC | stat.S_IREAD | stat.S_IWRITE)
        except (OSError, IOError) as error:
            raise WorkspaceError(str(error))
    line = template.format(title=full_title, command=prefixed, command_file=command_file, prefix=sys.prefix)
    try:
        subprocess.check_call(line, shell=True)
    except (subprocess.CalledProcessError, IOError, OSError) as error:
        raise WorkspaceError(str(error))


# ---------------------------------------------------------------- program configuration

@spec('dedop/util/config.py:get_config', props='C25', opaque='read_python_config write_default_config_file')
def get_config():
    if _CONFIG is None:
        dedop.util.config._CONFIG = {}
        file = os.path.expanduser(DEFAULT_CONFIG_FILE)
        if not os.path.exists(file):
            try:
                write_default_config_file()
            except (IOError, OSError):
                pass
        if os.path.isfile(file):
            try:
                dedop.util.config._CONFIG = read_python_config(file)
            except Exception:
                pass
        local = os.path.expanduser('dedop-config.py')
        if os.path.isfile(local):
            try:
                _CONFIG.update(read_python_config(local))
            except Exception:
                pass
    return _CONFIG


# ---------------------------------------------------------------- web service

@spec('dedop/webapi/main.py:WebAPIVersionHandler.get', props='C26')
def version_get(self):
    self.write_status_ok(content={'name': CLI_NAME, 'version': __version__, 'timestamp': date.today().isoformat()})


@spec('dedop/webapi/main.py:create_application', props='C26')
def create_application():
    application = Application([
        (url_pattern('/'), WebAPIVersionHandler),
        (url_pattern('/exit'), WebAPIExitHandler),
        (url_pattern('/app'), JsonRpcWebSocketHandler, dict(service_factory=service_factory,
                                                            report_defer_period=WEBAPI_PROGRESS_DEFER_PERIOD)),
    ])
    application.workspace_manager = WorkspaceManager()
    return application


# ---------------------------------------------------------------- input products

@spec('dedop/data/input/l1a/l1a_dataset.py:L1AGlobals.__init__', props='C07')
def l1a_globals(self, **attrs):
    self.mission_name = attrs.get('mission_name')
    self.altimeter_sensor_name = attrs.get('altimeter_sensor_name')
    self.gnss_sensor_name = attrs.get('gnss_sensor_name')
    self.doris_sensor_name = attrs.get('doris_sensor_name')
    self.references = attrs.get('references')
    self.acq_station_name = attrs.get('acq_station_name')
    self.xref_altimeter_level0 = attrs.get('xref_altimeter_level0')
    self.xref_navatt_level0 = attrs.get('xref_navatt_level0')
    self.xref_altimeter_orbit = attrs.get('xref_altimeter_orbit')
    self.xref_doris_uso = attrs.get('xref_doris_uso')
    self.xref_altimeter_ltm_lrm_cal1 = attrs.get('xref_altimeter_ltm_lrm_cal1')
    self.xref_altimeter_ltm_sar_cal1 = attrs.get('xref_altimeter_ltm_sar_cal1')
    self.xref_altimeter_ltm_ku_cal2 = attrs.get('xref_altimeter_ltm_ku_cal2')
    self.xref_altimeter_ltm_c_cal2 = attrs.get('xref_altimeter_ltm_c_cal2')
    self.xref_altimeter_characterisation = attrs.get('xref_altimeter_characterisation')
    self.xref_time_correlation = attrs.get('xref_time_correlation')
    self.xref_platform = attrs.get('xref_platform')
    self.history = attrs.get('history')
    self.product_name = attrs.get('product_name')


@spec('dedop/data/input/l1a/l1a_dataset.py:L1AGlobals.get_l1b_product_name', props='C07')
def l1b_product_name(self):
    return self.product_name.replace('_A__', '____')


@spec('dedop/data/input/l1a/l1a_dataset.py:L1AGlobals.get_l1bs_product_name', props='C07')
def l1bs_product_name(self):
    return self.product_name.replace('_A__', '_BS_')


@spec('dedop/data/input/netcdf_reader.py:NetCDFReader.dimensions', props='C09')
def reader_dimensions(self):
    return self._doc.dimensions


# ---------------------------------------------------------------- algorithm parameters

@spec('dedop/util/parameter.py:Parameter.data_type', props='C11')
def parameter_data_type(self):
    return self._data_type


@spec('dedop/util/parameter.py:Parameter.get_parameter', props='C11', pure='Parameter.get_parameter')
def get_parameter(clazz, name):
    if hasattr(clazz, 'parameters') and name in clazz.parameters:
        return clazz.parameters[name]
    for base in clazz.__bases__:
        found = Parameter.get_parameter(base, name)
        if found:
            return found
    return None


# ---------------------------------------------------------------- times

@spec('dedop/util/time.py:UTCZone.utcoffset', props='C07')
def utc_offset(self, datetime):
    return timedelta(0)


@spec('dedop/util/time.py:UTCZone.dst', props='C07')
def utc_dst(self, datetime):
    return timedelta(0)


# ---------------------------------------------------------------- processing steps

@spec('dedop/proc/sar/algorithms/azimuth_processing.py:AzimuthProcessingAlgorithm.__init__', props='C11 C02', opaque='collect_parameter_values')
def azimuth_init(self, chd, cst, cnf):
    self.chd = chd
    self.cst = cst
    self.cnf = cnf
    self.collect_parameter_values()


@spec('dedop/proc/sar/algorithms/multilooking.py:MultilookingAlgorithm.__init__', props='C11 C02', opaque='collect_parameter_values')
def multilooking_init(self, chd, cst, cnf):
    self.chd = chd
    self.cst = cst
    self.cnf = cnf
    self.collect_parameter_values()


@spec('dedop/proc/sar/algorithms/stack_gathering.py:StackGatheringAlgorithm.__init__', props='C11 C02', opaque='collect_parameter_values')
def stack_init(self, chd, cst, cnf):
    self.chd = chd
    self.cst = cst
    self.cnf = cnf
    self.collect_parameter_values()


@spec('dedop/proc/sar/algorithms/surface_locations.py:SurfaceLocationAlgorithm.__init__', props='C11 C02', opaque='collect_parameter_values',
      scratch='new_surf first_surf time_surf x_surf y_surf z_surf lat_surf lon_surf alt_surf x_sat y_sat z_sat lat_sat lon_sat alt_sat x_vel_sat '
              'y_vel_sat z_vel_sat alt_rate_sat roll_sat pitch_sat yaw_sat win_delay_surf prev_tai prev_utc_days prev_utc_secs curr_day_length')
def surface_locations_init(self, chd, cst, cnf):
    self.chd = chd
    self.cst = cst
    self.cnf = cnf
    self.focus_found = False
    self.collect_parameter_values()
