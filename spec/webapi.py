"""Reference: web service (C26, C17, C16)."""
import json
import os
import sys
from cate.util.monitor import Monitor
from cate.util.web.webapi import run_main
from netCDF4 import Dataset
from dedop.conf.defaults import DEFAULT_VERSION_DATA_PATH, ENV_LOCATION_FILE, WEBAPI_LOG_FILE_PREFIX
from dedop.proc.sar import L1BProcessor
from dedop.version import __version__
from dedop.webapi.main import CLI_DESCRIPTION, CLI_NAME, create_application
from dedop.webapi.websocket import WebSocketService


@spec('dedop/webapi/websocket.py:WebSocketService.__init__', props='C26')
def ws_init(self, workspace_manager):
    self.workspace_manager = workspace_manager


@spec('dedop/webapi/websocket.py:WebSocketService.new_workspace', props='C26')
def ws_new_workspace(self, workspace_name):
    return self.workspace_manager.create_workspace(workspace_name).to_json_dict()


@spec('dedop/webapi/websocket.py:WebSocketService.delete_workspace', props='C26 C17')
def ws_delete_workspace(self, workspace_name):
    self.workspace_manager.delete_workspace(workspace_name)
    if workspace_name == self.workspace_manager.get_current_workspace().name:
        left = self.workspace_manager.get_workspace_names()
        if 'default' in left:
            new = 'default'
        elif len(left) > 0:
            new = left[0]
        else:
            new = ''
        self.workspace_manager.set_current_workspace_name(new).to_json_dict()


@spec('dedop/webapi/websocket.py:WebSocketService.copy_workspace', props='C26')
def ws_copy_workspace(self, workspace_name, new_workspace_name):
    return self.workspace_manager.copy_workspace(workspace_name, new_workspace_name).to_json_dict()


@spec('dedop/webapi/websocket.py:WebSocketService.rename_workspace', props='C26 C17')
def ws_rename_workspace(self, workspace_name, new_workspace_name):
    workspace = self.workspace_manager.rename_workspace(workspace_name, new_workspace_name)
    if workspace_name == self.workspace_manager.get_current_workspace().name:
        workspace = self.workspace_manager.set_current_workspace_name(new_workspace_name)
    return workspace.to_json_dict()


@spec('dedop/webapi/websocket.py:WebSocketService.get_current_workspace', props='C26')
def ws_get_current_workspace(self):
    return self.workspace_manager.get_current_workspace().to_json_dict()


@spec('dedop/webapi/websocket.py:WebSocketService.set_current_workspace', props='C26')
def ws_set_current_workspace(self, workspace_name):
    return self.workspace_manager.set_current_workspace_name(workspace_name).to_json_dict()


@spec('dedop/webapi/websocket.py:WebSocketService.get_all_workspaces', props='C26')
def ws_get_all_workspaces(self):
    return {'workspaces': self.workspace_manager.get_workspaces()}


@spec('dedop/webapi/websocket.py:WebSocketService.add_input_files', props='C26')
def ws_add_input_files(self, workspace_name, input_file_paths):
    self.workspace_manager.add_inputs(workspace_name, input_file_paths, Monitor.NONE)


@spec('dedop/webapi/websocket.py:WebSocketService.remove_input_files', props='C26')
def ws_remove_input_files(self, workspace_name, input_names):
    self.workspace_manager.remove_inputs(workspace_name, input_names, Monitor.NONE)


@spec('dedop/webapi/websocket.py:WebSocketService.get_config_names', props='C26')
def ws_get_config_names(self, workspace_name):
    return self.workspace_manager.get_config_names(workspace_name)


@spec('dedop/webapi/websocket.py:WebSocketService.add_new_config', props='C26')
def ws_add_new_config(self, workspace_name, config_name, cryosat):
    self.workspace_manager.create_config(workspace_name, config_name, cryosat=cryosat)


@spec('dedop/webapi/websocket.py:WebSocketService.delete_config', props='C26 C17')
def ws_delete_config(self, workspace_name, config_name):
    self.workspace_manager.delete_config(workspace_name, config_name)
    if config_name == self.workspace_manager.get_current_config_name(workspace_name):
        left = self.workspace_manager.get_config_names(workspace_name)
        if 'default' in left:
            new = 'default'
        elif len(left) > 0:
            new = left[0]
        else:
            new = ''
        self.workspace_manager.set_current_config_name(workspace_name, new)


@spec('dedop/webapi/websocket.py:WebSocketService.copy_config', props='C26')
def ws_copy_config(self, workspace_name, config_name, new_config_name):
    self.workspace_manager.copy_config(workspace_name, config_name, new_config_name)


@spec('dedop/webapi/websocket.py:WebSocketService.rename_config', props='C17')
def ws_rename_config(self, workspace_name, config_name, new_config_name):
    self.workspace_manager.rename_config(workspace_name, config_name, new_config_name)
    if config_name == self.workspace_manager.get_current_config_name(workspace_name):
        self.workspace_manager.set_current_config_name(workspace_name, new_config_name)


@spec('dedop/webapi/websocket.py:WebSocketService.rename_config', known='ws_rename_config',
      note='WebSocketService.rename_config leaves the current configuration at its old name when the current '
           'configuration is renamed (tests/webapi/test_websocket.py expects that)')
def ws_rename_config_known(self, workspace_name, config_name, new_config_name):
    self.workspace_manager.rename_config(workspace_name, config_name, new_config_name)


@spec('dedop/webapi/websocket.py:WebSocketService.get_current_config', props='C26')
def ws_get_current_config(self, workspace_name):
    return {'name': self.workspace_manager.get_current_config_name(workspace_name)}


@spec('dedop/webapi/websocket.py:WebSocketService.set_current_config', props='C26')
def ws_set_current_config(self, workspace_name, config_name):
    self.workspace_manager.set_current_config_name(workspace_name, config_name)


def configs(manager, workspace_name, config_name):
    chd, chd_order = manager.get_config_json(workspace_name, config_name, 'CHD')
    cnf, cnf_order = manager.get_config_json(workspace_name, config_name, 'CNF')
    cst, cst_order = manager.get_config_json(workspace_name, config_name, 'CST')
    return {'name': config_name, 'chd': chd, 'chd_order': chd_order, 'cnf': cnf, 'cnf_order': cnf_order,
            'cst': cst, 'cst_order': cst_order}


@spec('dedop/webapi/websocket.py:WebSocketService.get_configs', props='C26')
def ws_get_configs(self, workspace_name, config_name):
    return configs(self.workspace_manager, workspace_name, config_name)


@spec('dedop/webapi/websocket.py:WebSocketService.get_default_config_versions', props='C26')
def ws_get_default_config_versions(self):
    chd, cnf, cst = self.workspace_manager.get_all_default_config_version()
    return {'chd_version': chd, 'cnf_version': cnf, 'cst_version': cst}


@spec('dedop/webapi/websocket.py:WebSocketService.save_configs', props='C26')
def ws_save_configs(self, workspace_name, config_name, configurations):
    self.workspace_manager.write_config_file(
        workspace_name, config_name, 'CHD',
        json.dumps(configurations.get('chd'), indent=4, separators=(',', ': '), sort_keys=True))
    self.workspace_manager.write_config_file(
        workspace_name, config_name, 'CNF',
        json.dumps(configurations.get('cnf'), indent=4, separators=(',', ': '), sort_keys=True))
    self.workspace_manager.write_config_file(
        workspace_name, config_name, 'CST',
        json.dumps(configurations.get('cst'), indent=4, separators=(',', ': '), sort_keys=True))


@spec('dedop/webapi/websocket.py:WebSocketService.process', props='C26', opaque='process')
def ws_process(self, process_name, workspace_name, config_name, output_path, l1a_file, monitor):
    chd_file = self.workspace_manager.get_config_file(workspace_name, config_name, 'CHD')
    cnf_file = self.workspace_manager.get_config_file(workspace_name, config_name, 'CNF')
    cst_file = self.workspace_manager.get_config_file(workspace_name, config_name, 'CST')
    processor = L1BProcessor(name=process_name, cnf_file=cnf_file, cst_file=cst_file, chd_file=chd_file,
                             out_path=output_path, skip_l1bs=False)
    processor.process(l1a_file, monitor=monitor)


@spec('dedop/webapi/websocket.py:WebSocketService.upgrade_configs', props='C26')
def ws_upgrade_configs(self, workspace_name, config_name):
    self.workspace_manager.upgrade_all_config(workspace_name, config_name)
    return configs(self.workspace_manager, workspace_name, config_name)


@spec('dedop/webapi/websocket.py:WebSocketService.get_output_names', props='C26')
def ws_get_output_names(self, workspace_name, config_name):
    return self.workspace_manager.get_output_names(workspace_name, config_name)


@spec('dedop/webapi/websocket.py:WebSocketService.remove_output_files', props='C26')
def ws_remove_output_files(self, workspace_name, config_name):
    self.workspace_manager.remove_outputs(workspace_name, config_name)


@spec('dedop/webapi/websocket.py:WebSocketService.inspect_output', props='C26')
def ws_inspect_output(self, workspace_name, output_file_path):
    self.workspace_manager.inspect_l1b_product(workspace_name, output_file_path)


@spec('dedop/webapi/websocket.py:WebSocketService.compare_outputs', props='C26')
def ws_compare_outputs(self, workspace_name, output1_file_path, output2_file_path):
    self.workspace_manager.compare_l1b_products(workspace_name, output1_file_path, output2_file_path)


@spec('dedop/webapi/websocket.py:WebSocketService.get_notebook_file_names', props='C26')
def ws_get_notebook_file_names(self, workspace_name):
    return self.workspace_manager.get_notebook_names(workspace_name)


@spec('dedop/webapi/websocket.py:WebSocketService.launch_notebook', props='C26')
def ws_launch_notebook(self, workspace_name, notebook_name):
    folder = os.path.join(self.workspace_manager.get_workspace_path(workspace_name), 'notebooks')
    return self.workspace_manager.launch_notebook('DeDop - %s' % notebook_name, folder,
                                                  os.path.join(folder, notebook_name))


@spec('dedop/webapi/websocket.py:WebSocketService.get_lat_lon', props='C26', onraise=True)
def ws_get_lat_lon(input_file_path):
    ds = Dataset(input_file_path)
    try:
        lat = []
        if 'lat_l1a_echo_sar_ku' in ds.variables.keys():
            lat = ds['lat_l1a_echo_sar_ku'][:].tolist()
        lon = []
        if 'lon_l1a_echo_sar_ku' in ds.variables.keys():
            lon = ds['lon_l1a_echo_sar_ku'][:].tolist()
    finally:
        ds.close()
    return {'lat': lat, 'lon': lon}


@spec('dedop/webapi/websocket.py:WebSocketService.get_max_min_coordinates', props='C26', onraise=True)
def ws_get_max_min_coordinates(input_file_path):
    ds = Dataset(input_file_path)
    try:
        lat = []
        if 'lat_l1a_echo_sar_ku' in ds.variables.keys():
            lat = ds['lat_l1a_echo_sar_ku'][:].tolist()
        lon = []
        if 'lon_l1a_echo_sar_ku' in ds.variables.keys():
            lon = ds['lon_l1a_echo_sar_ku'][:].tolist()
    finally:
        ds.close()
    return {'lat': [lat[0], lat[-1]], 'lon': [lon[0], lon[-1]]}


@spec('dedop/webapi/websocket.py:WebSocketService.get_global_attributes', props='C26', onraise=True)
def ws_get_global_attributes(input_file_path):
    ds = Dataset(input_file_path)
    try:
        attributes = ds.__dict__
    finally:
        ds.close()
    return attributes


@spec('dedop/webapi/main.py:service_factory', props='C26')
def service_factory(application):
    return WebSocketService(application.workspace_manager)


@spec('dedop/webapi/main.py:main', props='C26')
def webapi_main(args=None):
    if not os.path.exists(DEFAULT_VERSION_DATA_PATH):
        os.makedirs(DEFAULT_VERSION_DATA_PATH, exist_ok=True)
    if not os.path.exists(ENV_LOCATION_FILE):
        with open(ENV_LOCATION_FILE, 'w+') as f:
            f.write(sys.prefix)
    return run_main(CLI_NAME, CLI_DESCRIPTION, __version__, application_factory=create_application,
                    log_file_prefix=WEBAPI_LOG_FILE_PREFIX, args=args)
