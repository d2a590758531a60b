"""Reference: field accessors (C10).  Generated by tools/gen_accessors.py."""


@spec('dedop/model/surface_data.py:SurfaceData.sigma0_scaling_factor_beam', props='C10')
def surf_get_sigma0_scaling_factor_beam(self):
    return self._data['sigma0_scaling_factor_beam']


@spec('dedop/model/surface_data.py:SurfaceData.sigma0_scaling_factor_beam=', props='C10')
def surf_set_sigma0_scaling_factor_beam(self, value):
    self._data['sigma0_scaling_factor_beam'] = value


@spec('dedop/model/surface_data.py:SurfaceData.sigma0_scaling_factor_beam~', props='C10')
def surf_del_sigma0_scaling_factor_beam(self):
    del self._data['sigma0_scaling_factor_beam']


@spec('dedop/model/surface_data.py:SurfaceData.focus_target_distance', props='C10')
def surf_get_focus_target_distance(self):
    return self._data['focus_target_distance']


@spec('dedop/model/surface_data.py:SurfaceData.focus_target_distance=', props='C10')
def surf_set_focus_target_distance(self, value):
    self._data['focus_target_distance'] = value


@spec('dedop/model/surface_data.py:SurfaceData.focus_target_distance~', props='C10')
def surf_del_focus_target_distance(self):
    del self._data['focus_target_distance']


@spec('dedop/model/surface_data.py:SurfaceData.time_surf', props='C10')
def surf_get_time_surf(self):
    return self._data['time_surf']


@spec('dedop/model/surface_data.py:SurfaceData.time_surf=', props='C10')
def surf_set_time_surf(self, value):
    self._data['time_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.time_surf~', props='C10')
def surf_del_time_surf(self):
    del self._data['time_surf']


@spec('dedop/model/surface_data.py:SurfaceData.win_delay_surf', props='C10')
def surf_get_win_delay_surf(self):
    return self._data['win_delay_surf']


@spec('dedop/model/surface_data.py:SurfaceData.win_delay_surf=', props='C10')
def surf_set_win_delay_surf(self, value):
    self._data['win_delay_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.win_delay_surf~', props='C10')
def surf_del_win_delay_surf(self):
    del self._data['win_delay_surf']


@spec('dedop/model/surface_data.py:SurfaceData.x_surf', props='C10')
def surf_get_x_surf(self):
    return self._data['x_surf']


@spec('dedop/model/surface_data.py:SurfaceData.x_surf=', props='C10')
def surf_set_x_surf(self, value):
    self._data['x_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.x_surf~', props='C10')
def surf_del_x_surf(self):
    del self._data['x_surf']


@spec('dedop/model/surface_data.py:SurfaceData.y_surf', props='C10')
def surf_get_y_surf(self):
    return self._data['y_surf']


@spec('dedop/model/surface_data.py:SurfaceData.y_surf=', props='C10')
def surf_set_y_surf(self, value):
    self._data['y_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.y_surf~', props='C10')
def surf_del_y_surf(self):
    del self._data['y_surf']


@spec('dedop/model/surface_data.py:SurfaceData.z_surf', props='C10')
def surf_get_z_surf(self):
    return self._data['z_surf']


@spec('dedop/model/surface_data.py:SurfaceData.z_surf=', props='C10')
def surf_set_z_surf(self, value):
    self._data['z_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.z_surf~', props='C10')
def surf_del_z_surf(self):
    del self._data['z_surf']


@spec('dedop/model/surface_data.py:SurfaceData.lat_surf', props='C10')
def surf_get_lat_surf(self):
    return self._data['lat_surf']


@spec('dedop/model/surface_data.py:SurfaceData.lat_surf=', props='C10')
def surf_set_lat_surf(self, value):
    self._data['lat_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.lat_surf~', props='C10')
def surf_del_lat_surf(self):
    del self._data['lat_surf']


@spec('dedop/model/surface_data.py:SurfaceData.lon_surf', props='C10')
def surf_get_lon_surf(self):
    return self._data['lon_surf']


@spec('dedop/model/surface_data.py:SurfaceData.lon_surf=', props='C10')
def surf_set_lon_surf(self, value):
    self._data['lon_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.lon_surf~', props='C10')
def surf_del_lon_surf(self):
    del self._data['lon_surf']


@spec('dedop/model/surface_data.py:SurfaceData.alt_surf', props='C10')
def surf_get_alt_surf(self):
    return self._data['alt_surf']


@spec('dedop/model/surface_data.py:SurfaceData.alt_surf=', props='C10')
def surf_set_alt_surf(self, value):
    self._data['alt_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.alt_surf~', props='C10')
def surf_del_alt_surf(self):
    del self._data['alt_surf']


@spec('dedop/model/surface_data.py:SurfaceData.x_sat', props='C10')
def surf_get_x_sat(self):
    return self._data['x_sat']


@spec('dedop/model/surface_data.py:SurfaceData.x_sat=', props='C10')
def surf_set_x_sat(self, value):
    self._data['x_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.x_sat~', props='C10')
def surf_del_x_sat(self):
    del self._data['x_sat']


@spec('dedop/model/surface_data.py:SurfaceData.y_sat', props='C10')
def surf_get_y_sat(self):
    return self._data['y_sat']


@spec('dedop/model/surface_data.py:SurfaceData.y_sat=', props='C10')
def surf_set_y_sat(self, value):
    self._data['y_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.y_sat~', props='C10')
def surf_del_y_sat(self):
    del self._data['y_sat']


@spec('dedop/model/surface_data.py:SurfaceData.z_sat', props='C10')
def surf_get_z_sat(self):
    return self._data['z_sat']


@spec('dedop/model/surface_data.py:SurfaceData.z_sat=', props='C10')
def surf_set_z_sat(self, value):
    self._data['z_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.z_sat~', props='C10')
def surf_del_z_sat(self):
    del self._data['z_sat']


@spec('dedop/model/surface_data.py:SurfaceData.lat_sat', props='C10')
def surf_get_lat_sat(self):
    return self._data['lat_sat']


@spec('dedop/model/surface_data.py:SurfaceData.lat_sat=', props='C10')
def surf_set_lat_sat(self, value):
    self._data['lat_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.lat_sat~', props='C10')
def surf_del_lat_sat(self):
    del self._data['lat_sat']


@spec('dedop/model/surface_data.py:SurfaceData.lon_sat', props='C10')
def surf_get_lon_sat(self):
    return self._data['lon_sat']


@spec('dedop/model/surface_data.py:SurfaceData.lon_sat=', props='C10')
def surf_set_lon_sat(self, value):
    self._data['lon_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.lon_sat~', props='C10')
def surf_del_lon_sat(self):
    del self._data['lon_sat']


@spec('dedop/model/surface_data.py:SurfaceData.alt_sat', props='C10')
def surf_get_alt_sat(self):
    return self._data['alt_sat']


@spec('dedop/model/surface_data.py:SurfaceData.alt_sat=', props='C10')
def surf_set_alt_sat(self, value):
    self._data['alt_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.alt_sat~', props='C10')
def surf_del_alt_sat(self):
    del self._data['alt_sat']


@spec('dedop/model/surface_data.py:SurfaceData.x_vel_sat', props='C10')
def surf_get_x_vel_sat(self):
    return self._data['x_vel_sat']


@spec('dedop/model/surface_data.py:SurfaceData.x_vel_sat=', props='C10')
def surf_set_x_vel_sat(self, value):
    self._data['x_vel_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.x_vel_sat~', props='C10')
def surf_del_x_vel_sat(self):
    del self._data['x_vel_sat']


@spec('dedop/model/surface_data.py:SurfaceData.y_vel_sat', props='C10')
def surf_get_y_vel_sat(self):
    return self._data['y_vel_sat']


@spec('dedop/model/surface_data.py:SurfaceData.y_vel_sat=', props='C10')
def surf_set_y_vel_sat(self, value):
    self._data['y_vel_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.y_vel_sat~', props='C10')
def surf_del_y_vel_sat(self):
    del self._data['y_vel_sat']


@spec('dedop/model/surface_data.py:SurfaceData.z_vel_sat', props='C10')
def surf_get_z_vel_sat(self):
    return self._data['z_vel_sat']


@spec('dedop/model/surface_data.py:SurfaceData.z_vel_sat=', props='C10')
def surf_set_z_vel_sat(self, value):
    self._data['z_vel_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.z_vel_sat~', props='C10')
def surf_del_z_vel_sat(self):
    del self._data['z_vel_sat']


@spec('dedop/model/surface_data.py:SurfaceData.alt_rate_sat', props='C10')
def surf_get_alt_rate_sat(self):
    return self._data['alt_rate_sat']


@spec('dedop/model/surface_data.py:SurfaceData.alt_rate_sat=', props='C10')
def surf_set_alt_rate_sat(self, value):
    self._data['alt_rate_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.alt_rate_sat~', props='C10')
def surf_del_alt_rate_sat(self):
    del self._data['alt_rate_sat']


@spec('dedop/model/surface_data.py:SurfaceData.roll_sat', props='C10')
def surf_get_roll_sat(self):
    return self._data['roll_sat']


@spec('dedop/model/surface_data.py:SurfaceData.roll_sat=', props='C10')
def surf_set_roll_sat(self, value):
    self._data['roll_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.roll_sat~', props='C10')
def surf_del_roll_sat(self):
    del self._data['roll_sat']


@spec('dedop/model/surface_data.py:SurfaceData.pitch_sat', props='C10')
def surf_get_pitch_sat(self):
    return self._data['pitch_sat']


@spec('dedop/model/surface_data.py:SurfaceData.pitch_sat=', props='C10')
def surf_set_pitch_sat(self, value):
    self._data['pitch_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.pitch_sat~', props='C10')
def surf_del_pitch_sat(self):
    del self._data['pitch_sat']


@spec('dedop/model/surface_data.py:SurfaceData.yaw_sat', props='C10')
def surf_get_yaw_sat(self):
    return self._data['yaw_sat']


@spec('dedop/model/surface_data.py:SurfaceData.yaw_sat=', props='C10')
def surf_set_yaw_sat(self, value):
    self._data['yaw_sat'] = value


@spec('dedop/model/surface_data.py:SurfaceData.yaw_sat~', props='C10')
def surf_del_yaw_sat(self):
    del self._data['yaw_sat']


@spec('dedop/model/surface_data.py:SurfaceData.angular_azimuth_beam_resolution', props='C10')
def surf_get_angular_azimuth_beam_resolution(self):
    return self._data['angular_azimuth_beam_resolution']


@spec('dedop/model/surface_data.py:SurfaceData.angular_azimuth_beam_resolution=', props='C10')
def surf_set_angular_azimuth_beam_resolution(self, value):
    self._data['angular_azimuth_beam_resolution'] = value


@spec('dedop/model/surface_data.py:SurfaceData.angular_azimuth_beam_resolution~', props='C10')
def surf_del_angular_azimuth_beam_resolution(self):
    del self._data['angular_azimuth_beam_resolution']


@spec('dedop/model/surface_data.py:SurfaceData.surface_type', props='C10')
def surf_get_surface_type(self):
    return self._data['surface_type']


@spec('dedop/model/surface_data.py:SurfaceData.surface_type=', props='C10')
def surf_set_surface_type(self, value):
    self._data['surface_type'] = value


@spec('dedop/model/surface_data.py:SurfaceData.surface_type~', props='C10')
def surf_del_surface_type(self):
    del self._data['surface_type']


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_beams_indices', props='C10')
def surf_get_stack_all_beams_indices(self):
    return self._data['stack_all_beams_indices']


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_beams_indices=', props='C10')
def surf_set_stack_all_beams_indices(self, value):
    self._data['stack_all_beams_indices'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_beams_indices~', props='C10')
def surf_del_stack_all_beams_indices(self):
    del self._data['stack_all_beams_indices']


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_beams_indices_abs', props='C10')
def surf_get_stack_all_beams_indices_abs(self):
    return self._data['stack_all_beams_indices_abs']


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_beams_indices_abs=', props='C10')
def surf_set_stack_all_beams_indices_abs(self, value):
    self._data['stack_all_beams_indices_abs'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_beams_indices_abs~', props='C10')
def surf_del_stack_all_beams_indices_abs(self):
    del self._data['stack_all_beams_indices_abs']


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_bursts', props='C10')
def surf_get_stack_all_bursts(self):
    return self._data['stack_all_bursts']


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_bursts=', props='C10')
def surf_set_stack_all_bursts(self, value):
    self._data['stack_all_bursts'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_all_bursts~', props='C10')
def surf_del_stack_all_bursts(self):
    del self._data['stack_all_bursts']


@spec('dedop/model/surface_data.py:SurfaceData.data_stack_size', props='C10')
def surf_get_data_stack_size(self):
    return self._data['data_stack_size']


@spec('dedop/model/surface_data.py:SurfaceData.data_stack_size=', props='C10')
def surf_set_data_stack_size(self, value):
    self._data['data_stack_size'] = value


@spec('dedop/model/surface_data.py:SurfaceData.data_stack_size~', props='C10')
def surf_del_data_stack_size(self):
    del self._data['data_stack_size']


@spec('dedop/model/surface_data.py:SurfaceData.stack_bursts', props='C10')
def surf_get_stack_bursts(self):
    return self._data['stack_bursts']


@spec('dedop/model/surface_data.py:SurfaceData.stack_bursts=', props='C10')
def surf_set_stack_bursts(self, value):
    self._data['stack_bursts'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_bursts~', props='C10')
def surf_del_stack_bursts(self):
    del self._data['stack_bursts']


@spec('dedop/model/surface_data.py:SurfaceData.beam_angles_surf', props='C10')
def surf_get_beam_angles_surf(self):
    return self._data['beam_angles_surf']


@spec('dedop/model/surface_data.py:SurfaceData.beam_angles_surf=', props='C10')
def surf_set_beam_angles_surf(self, value):
    self._data['beam_angles_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.beam_angles_surf~', props='C10')
def surf_del_beam_angles_surf(self):
    del self._data['beam_angles_surf']


@spec('dedop/model/surface_data.py:SurfaceData.surf_sat_vector', props='C10')
def surf_get_surf_sat_vector(self):
    return self._data['surf_sat_vector']


@spec('dedop/model/surface_data.py:SurfaceData.surf_sat_vector=', props='C10')
def surf_set_surf_sat_vector(self, value):
    self._data['surf_sat_vector'] = value


@spec('dedop/model/surface_data.py:SurfaceData.surf_sat_vector~', props='C10')
def surf_del_surf_sat_vector(self):
    del self._data['surf_sat_vector']


@spec('dedop/model/surface_data.py:SurfaceData.t0_surf', props='C10')
def surf_get_t0_surf(self):
    return self._data['t0_surf']


@spec('dedop/model/surface_data.py:SurfaceData.t0_surf=', props='C10')
def surf_set_t0_surf(self, value):
    self._data['t0_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.t0_surf~', props='C10')
def surf_del_t0_surf(self):
    del self._data['t0_surf']


@spec('dedop/model/surface_data.py:SurfaceData.beams_surf', props='C10')
def surf_get_beams_surf(self):
    return self._data['beams_surf']


@spec('dedop/model/surface_data.py:SurfaceData.beams_surf=', props='C10')
def surf_set_beams_surf(self, value):
    self._data['beams_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.beams_surf~', props='C10')
def surf_del_beams_surf(self):
    del self._data['beams_surf']


@spec('dedop/model/surface_data.py:SurfaceData.beams_geo_corr', props='C10')
def surf_get_beams_geo_corr(self):
    return self._data['beams_geo_corr']


@spec('dedop/model/surface_data.py:SurfaceData.beams_geo_corr=', props='C10')
def surf_set_beams_geo_corr(self, value):
    self._data['beams_geo_corr'] = value


@spec('dedop/model/surface_data.py:SurfaceData.beams_geo_corr~', props='C10')
def surf_del_beams_geo_corr(self):
    del self._data['beams_geo_corr']


@spec('dedop/model/surface_data.py:SurfaceData.doppler_corrections', props='C10')
def surf_get_doppler_corrections(self):
    return self._data['doppler_corrections']


@spec('dedop/model/surface_data.py:SurfaceData.doppler_corrections=', props='C10')
def surf_set_doppler_corrections(self, value):
    self._data['doppler_corrections'] = value


@spec('dedop/model/surface_data.py:SurfaceData.doppler_corrections~', props='C10')
def surf_del_doppler_corrections(self):
    del self._data['doppler_corrections']


@spec('dedop/model/surface_data.py:SurfaceData.slant_range_corrections', props='C10')
def surf_get_slant_range_corrections(self):
    return self._data['slant_range_corrections']


@spec('dedop/model/surface_data.py:SurfaceData.slant_range_corrections=', props='C10')
def surf_set_slant_range_corrections(self, value):
    self._data['slant_range_corrections'] = value


@spec('dedop/model/surface_data.py:SurfaceData.slant_range_corrections~', props='C10')
def surf_del_slant_range_corrections(self):
    del self._data['slant_range_corrections']


@spec('dedop/model/surface_data.py:SurfaceData.win_delay_corrections', props='C10')
def surf_get_win_delay_corrections(self):
    return self._data['win_delay_corrections']


@spec('dedop/model/surface_data.py:SurfaceData.win_delay_corrections=', props='C10')
def surf_set_win_delay_corrections(self, value):
    self._data['win_delay_corrections'] = value


@spec('dedop/model/surface_data.py:SurfaceData.win_delay_corrections~', props='C10')
def surf_del_win_delay_corrections(self):
    del self._data['win_delay_corrections']


@spec('dedop/model/surface_data.py:SurfaceData.beams_range_compr', props='C10')
def surf_get_beams_range_compr(self):
    return self._data['beams_range_compr']


@spec('dedop/model/surface_data.py:SurfaceData.beams_range_compr=', props='C10')
def surf_set_beams_range_compr(self, value):
    self._data['beams_range_compr'] = value


@spec('dedop/model/surface_data.py:SurfaceData.beams_range_compr~', props='C10')
def surf_del_beams_range_compr(self):
    del self._data['beams_range_compr']


@spec('dedop/model/surface_data.py:SurfaceData.beams_range_compr_iq', props='C10')
def surf_get_beams_range_compr_iq(self):
    return self._data['beams_range_compr_iq']


@spec('dedop/model/surface_data.py:SurfaceData.beams_range_compr_iq=', props='C10')
def surf_set_beams_range_compr_iq(self, value):
    self._data['beams_range_compr_iq'] = value


@spec('dedop/model/surface_data.py:SurfaceData.beams_range_compr_iq~', props='C10')
def surf_del_beams_range_compr_iq(self):
    del self._data['beams_range_compr_iq']


@spec('dedop/model/surface_data.py:SurfaceData.beams_masked', props='C10')
def surf_get_beams_masked(self):
    return self._data['beams_masked']


@spec('dedop/model/surface_data.py:SurfaceData.beams_masked=', props='C10')
def surf_set_beams_masked(self, value):
    self._data['beams_masked'] = value


@spec('dedop/model/surface_data.py:SurfaceData.beams_masked~', props='C10')
def surf_del_beams_masked(self):
    del self._data['beams_masked']


@spec('dedop/model/surface_data.py:SurfaceData.look_angles_surf', props='C10')
def surf_get_look_angles_surf(self):
    return self._data['look_angles_surf']


@spec('dedop/model/surface_data.py:SurfaceData.look_angles_surf=', props='C10')
def surf_set_look_angles_surf(self, value):
    self._data['look_angles_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.look_angles_surf~', props='C10')
def surf_del_look_angles_surf(self):
    del self._data['look_angles_surf']


@spec('dedop/model/surface_data.py:SurfaceData.pointing_angles_surf', props='C10')
def surf_get_pointing_angles_surf(self):
    return self._data['pointing_angles_surf']


@spec('dedop/model/surface_data.py:SurfaceData.pointing_angles_surf=', props='C10')
def surf_set_pointing_angles_surf(self, value):
    self._data['pointing_angles_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.pointing_angles_surf~', props='C10')
def surf_del_pointing_angles_surf(self):
    del self._data['pointing_angles_surf']


@spec('dedop/model/surface_data.py:SurfaceData.stack_mask_vector', props='C10')
def surf_get_stack_mask_vector(self):
    return self._data['stack_mask_vector']


@spec('dedop/model/surface_data.py:SurfaceData.stack_mask_vector=', props='C10')
def surf_set_stack_mask_vector(self, value):
    self._data['stack_mask_vector'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_mask_vector~', props='C10')
def surf_del_stack_mask_vector(self):
    del self._data['stack_mask_vector']


@spec('dedop/model/surface_data.py:SurfaceData.stack_mask', props='C10')
def surf_get_stack_mask(self):
    return self._data['stack_mask']


@spec('dedop/model/surface_data.py:SurfaceData.stack_mask=', props='C10')
def surf_set_stack_mask(self, value):
    self._data['stack_mask'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_mask~', props='C10')
def surf_del_stack_mask(self):
    del self._data['stack_mask']


@spec('dedop/model/surface_data.py:SurfaceData.doppler_angles_surf', props='C10')
def surf_get_doppler_angles_surf(self):
    return self._data['doppler_angles_surf']


@spec('dedop/model/surface_data.py:SurfaceData.doppler_angles_surf=', props='C10')
def surf_set_doppler_angles_surf(self, value):
    self._data['doppler_angles_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.doppler_angles_surf~', props='C10')
def surf_del_doppler_angles_surf(self):
    del self._data['doppler_angles_surf']


@spec('dedop/model/surface_data.py:SurfaceData.range_sat_surf', props='C10')
def surf_get_range_sat_surf(self):
    return self._data['range_sat_surf']


@spec('dedop/model/surface_data.py:SurfaceData.range_sat_surf=', props='C10')
def surf_set_range_sat_surf(self, value):
    self._data['range_sat_surf'] = value


@spec('dedop/model/surface_data.py:SurfaceData.range_sat_surf~', props='C10')
def surf_del_range_sat_surf(self):
    del self._data['range_sat_surf']


@spec('dedop/model/surface_data.py:SurfaceData.closest_burst_index', props='C10')
def surf_get_closest_burst_index(self):
    return self._data['closest_burst_index']


@spec('dedop/model/surface_data.py:SurfaceData.closest_burst_index=', props='C10')
def surf_set_closest_burst_index(self, value):
    self._data['closest_burst_index'] = value


@spec('dedop/model/surface_data.py:SurfaceData.closest_burst_index~', props='C10')
def surf_del_closest_burst_index(self):
    del self._data['closest_burst_index']


@spec('dedop/model/surface_data.py:SurfaceData.sigma0_scaling_factor', props='C10')
def surf_get_sigma0_scaling_factor(self):
    return self._data['sigma0_scaling_factor']


@spec('dedop/model/surface_data.py:SurfaceData.sigma0_scaling_factor=', props='C10')
def surf_set_sigma0_scaling_factor(self, value):
    self._data['sigma0_scaling_factor'] = value


@spec('dedop/model/surface_data.py:SurfaceData.sigma0_scaling_factor~', props='C10')
def surf_del_sigma0_scaling_factor(self):
    del self._data['sigma0_scaling_factor']


@spec('dedop/model/surface_data.py:SurfaceData.stack_std', props='C10')
def surf_get_stack_std(self):
    return self._data['stack_std']


@spec('dedop/model/surface_data.py:SurfaceData.stack_std=', props='C10')
def surf_set_stack_std(self, value):
    self._data['stack_std'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_std~', props='C10')
def surf_del_stack_std(self):
    del self._data['stack_std']


@spec('dedop/model/surface_data.py:SurfaceData.stack_max', props='C10')
def surf_get_stack_max(self):
    return self._data['stack_max']


@spec('dedop/model/surface_data.py:SurfaceData.stack_max=', props='C10')
def surf_set_stack_max(self, value):
    self._data['stack_max'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_max~', props='C10')
def surf_del_stack_max(self):
    del self._data['stack_max']


@spec('dedop/model/surface_data.py:SurfaceData.stack_skewness', props='C10')
def surf_get_stack_skewness(self):
    return self._data['stack_skewness']


@spec('dedop/model/surface_data.py:SurfaceData.stack_skewness=', props='C10')
def surf_set_stack_skewness(self, value):
    self._data['stack_skewness'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_skewness~', props='C10')
def surf_del_stack_skewness(self):
    del self._data['stack_skewness']


@spec('dedop/model/surface_data.py:SurfaceData.stack_kurtosis', props='C10')
def surf_get_stack_kurtosis(self):
    return self._data['stack_kurtosis']


@spec('dedop/model/surface_data.py:SurfaceData.stack_kurtosis=', props='C10')
def surf_set_stack_kurtosis(self, value):
    self._data['stack_kurtosis'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_kurtosis~', props='C10')
def surf_del_stack_kurtosis(self):
    del self._data['stack_kurtosis']


@spec('dedop/model/surface_data.py:SurfaceData.waveform_multilooked', props='C10')
def surf_get_waveform_multilooked(self):
    return self._data['waveform_multilooked']


@spec('dedop/model/surface_data.py:SurfaceData.waveform_multilooked=', props='C10')
def surf_set_waveform_multilooked(self, value):
    self._data['waveform_multilooked'] = value


@spec('dedop/model/surface_data.py:SurfaceData.waveform_multilooked~', props='C10')
def surf_del_waveform_multilooked(self):
    del self._data['waveform_multilooked']


@spec('dedop/model/surface_data.py:SurfaceData.n_beams_start_stop', props='C10')
def surf_get_n_beams_start_stop(self):
    return self._data['n_beams_start_stop']


@spec('dedop/model/surface_data.py:SurfaceData.n_beams_start_stop=', props='C10')
def surf_set_n_beams_start_stop(self, value):
    self._data['n_beams_start_stop'] = value


@spec('dedop/model/surface_data.py:SurfaceData.start_look_angle', props='C10')
def surf_get_start_look_angle(self):
    return self._data['start_look_angle']


@spec('dedop/model/surface_data.py:SurfaceData.start_look_angle=', props='C10')
def surf_set_start_look_angle(self, value):
    self._data['start_look_angle'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stop_look_angle', props='C10')
def surf_get_stop_look_angle(self):
    return self._data['stop_look_angle']


@spec('dedop/model/surface_data.py:SurfaceData.stop_look_angle=', props='C10')
def surf_set_stop_look_angle(self, value):
    self._data['stop_look_angle'] = value


@spec('dedop/model/surface_data.py:SurfaceData.start_doppler_angle', props='C10')
def surf_get_start_doppler_angle(self):
    return self._data['start_doppler_angle']


@spec('dedop/model/surface_data.py:SurfaceData.start_doppler_angle=', props='C10')
def surf_set_start_doppler_angle(self, value):
    self._data['start_doppler_angle'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stop_doppler_angle', props='C10')
def surf_get_stop_doppler_angle(self):
    return self._data['stop_doppler_angle']


@spec('dedop/model/surface_data.py:SurfaceData.stop_doppler_angle=', props='C10')
def surf_set_stop_doppler_angle(self, value):
    self._data['stop_doppler_angle'] = value


@spec('dedop/model/surface_data.py:SurfaceData.start_pointing_angle', props='C10')
def surf_get_start_pointing_angle(self):
    return self._data['start_pointing_angle']


@spec('dedop/model/surface_data.py:SurfaceData.start_pointing_angle=', props='C10')
def surf_set_start_pointing_angle(self, value):
    self._data['start_pointing_angle'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stop_pointing_angle', props='C10')
def surf_get_stop_pointing_angle(self):
    return self._data['stop_pointing_angle']


@spec('dedop/model/surface_data.py:SurfaceData.stop_pointing_angle=', props='C10')
def surf_set_stop_pointing_angle(self, value):
    self._data['stop_pointing_angle'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stack_mask_vector_start_stop', props='C10')
def surf_get_stack_mask_vector_start_stop(self):
    return self._data['stack_mask_vector_start_stop']


@spec('dedop/model/surface_data.py:SurfaceData.stack_mask_vector_start_stop=', props='C10')
def surf_set_stack_mask_vector_start_stop(self, value):
    self._data['stack_mask_vector_start_stop'] = value


@spec('dedop/model/surface_data.py:SurfaceData.start_beam_angle', props='C10')
def surf_get_start_beam_angle(self):
    return self._data['start_beam_angle']


@spec('dedop/model/surface_data.py:SurfaceData.start_beam_angle=', props='C10')
def surf_set_start_beam_angle(self, value):
    self._data['start_beam_angle'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stop_beam_angle', props='C10')
def surf_get_stop_beam_angle(self):
    return self._data['stop_beam_angle']


@spec('dedop/model/surface_data.py:SurfaceData.stop_beam_angle=', props='C10')
def surf_set_stop_beam_angle(self, value):
    self._data['stop_beam_angle'] = value


@spec('dedop/model/surface_data.py:SurfaceData.start_burst_index', props='C10')
def surf_get_start_burst_index(self):
    return self._data['start_burst_index']


@spec('dedop/model/surface_data.py:SurfaceData.start_burst_index=', props='C10')
def surf_set_start_burst_index(self, value):
    self._data['start_burst_index'] = value


@spec('dedop/model/surface_data.py:SurfaceData.stop_burst_index', props='C10')
def surf_get_stop_burst_index(self):
    return self._data['stop_burst_index']


@spec('dedop/model/surface_data.py:SurfaceData.stop_burst_index=', props='C10')
def surf_set_stop_burst_index(self, value):
    self._data['stop_burst_index'] = value


@spec('dedop/model/surface_data.py:SurfaceData.beam_angles_start_stop', props='C10')
def surf_get_beam_angles_start_stop(self):
    return self._data['beam_angles_start_stop']


@spec('dedop/model/surface_data.py:SurfaceData.beam_angles_start_stop=', props='C10')
def surf_set_beam_angles_start_stop(self, value):
    self._data['beam_angles_start_stop'] = value


@spec('dedop/model/surface_data.py:SurfaceData.look_angles_start_stop', props='C10')
def surf_get_look_angles_start_stop(self):
    return self._data['look_angles_start_stop']


@spec('dedop/model/surface_data.py:SurfaceData.look_angles_start_stop=', props='C10')
def surf_set_look_angles_start_stop(self, value):
    self._data['look_angles_start_stop'] = value


@spec('dedop/model/surface_data.py:SurfaceData.prev_tai', props='C10')
def surf_get_prev_tai(self):
    return self._data['prev_tai']


@spec('dedop/model/surface_data.py:SurfaceData.prev_utc_days', props='C10')
def surf_get_prev_utc_days(self):
    return self._data['prev_utc_days']


@spec('dedop/model/surface_data.py:SurfaceData.prev_utc_secs', props='C10')
def surf_get_prev_utc_secs(self):
    return self._data['prev_utc_secs']


@spec('dedop/model/surface_data.py:SurfaceData.curr_day_length', props='C10')
def surf_get_curr_day_length(self):
    return self._data['curr_day_length']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.isp_pid', props='C10')
def l1a_get_isp_pid(self):
    return self._data['isp_pid']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.isp_pid=', props='C10')
def l1a_set_isp_pid(self, value):
    self._data['isp_pid'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.isp_pid~', props='C10')
def l1a_del_isp_pid(self):
    del self._data['isp_pid']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.time_sar_ku', props='C10')
def l1a_get_time_sar_ku(self):
    return self._data['time_sar_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.time_sar_ku=', props='C10')
def l1a_set_time_sar_ku(self, value):
    self._data['time_sar_ku'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.time_sar_ku~', props='C10')
def l1a_del_time_sar_ku(self):
    del self._data['time_sar_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.days', props='C10')
def l1a_get_days(self):
    return self._data['days']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.days=', props='C10')
def l1a_set_days(self, value):
    self._data['days'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.days~', props='C10')
def l1a_del_days(self):
    del self._data['days']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.seconds', props='C10')
def l1a_get_seconds(self):
    return self._data['seconds']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.seconds=', props='C10')
def l1a_set_seconds(self, value):
    self._data['seconds'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.seconds~', props='C10')
def l1a_del_seconds(self):
    del self._data['seconds']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.seq_count_sar_ku_fbr', props='C10')
def l1a_get_seq_count_sar_ku_fbr(self):
    return self._data['seq_count_sar_ku_fbr']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.seq_count_sar_ku_fbr=', props='C10')
def l1a_set_seq_count_sar_ku_fbr(self, value):
    self._data['seq_count_sar_ku_fbr'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.seq_count_sar_ku_fbr~', props='C10')
def l1a_del_seq_count_sar_ku_fbr(self):
    del self._data['seq_count_sar_ku_fbr']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.inst_id_sar_isp', props='C10')
def l1a_get_inst_id_sar_isp(self):
    return self._data['inst_id_sar_isp']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.inst_id_sar_isp=', props='C10')
def l1a_set_inst_id_sar_isp(self, value):
    self._data['inst_id_sar_isp'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.inst_id_sar_isp~', props='C10')
def l1a_del_inst_id_sar_isp(self):
    del self._data['inst_id_sar_isp']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pri_sar_pre_dat', props='C10')
def l1a_get_pri_sar_pre_dat(self):
    return self._data['pri_sar_pre_dat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pri_sar_pre_dat=', props='C10')
def l1a_set_pri_sar_pre_dat(self, value):
    self._data['pri_sar_pre_dat'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pri_sar_pre_dat~', props='C10')
def l1a_del_pri_sar_pre_dat(self):
    del self._data['pri_sar_pre_dat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.ambiguity_order_sar', props='C10')
def l1a_get_ambiguity_order_sar(self):
    return self._data['ambiguity_order_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.ambiguity_order_sar=', props='C10')
def l1a_set_ambiguity_order_sar(self, value):
    self._data['ambiguity_order_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.ambiguity_order_sar~', props='C10')
def l1a_del_ambiguity_order_sar(self):
    del self._data['ambiguity_order_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.burst_sar_ku', props='C10')
def l1a_get_burst_sar_ku(self):
    return self._data['burst_sar_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.burst_sar_ku=', props='C10')
def l1a_set_burst_sar_ku(self, value):
    self._data['burst_sar_ku'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.burst_sar_ku~', props='C10')
def l1a_del_burst_sar_ku(self):
    del self._data['burst_sar_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.lat_sar_sat', props='C10')
def l1a_get_lat_sar_sat(self):
    return self._data['lat_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.lat_sar_sat=', props='C10')
def l1a_set_lat_sar_sat(self, value):
    self._data['lat_sar_sat'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.lat_sar_sat~', props='C10')
def l1a_del_lat_sar_sat(self):
    del self._data['lat_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.lon_sar_sat', props='C10')
def l1a_get_lon_sar_sat(self):
    return self._data['lon_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.lon_sar_sat=', props='C10')
def l1a_set_lon_sar_sat(self, value):
    self._data['lon_sar_sat'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.lon_sar_sat~', props='C10')
def l1a_del_lon_sar_sat(self):
    del self._data['lon_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.alt_sar_sat', props='C10')
def l1a_get_alt_sar_sat(self):
    return self._data['alt_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.alt_sar_sat=', props='C10')
def l1a_set_alt_sar_sat(self, value):
    self._data['alt_sar_sat'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.alt_sar_sat~', props='C10')
def l1a_del_alt_sar_sat(self):
    del self._data['alt_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.alt_rate_sat_sar', props='C10')
def l1a_get_alt_rate_sat_sar(self):
    return self._data['alt_rate_sat_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.alt_rate_sat_sar=', props='C10')
def l1a_set_alt_rate_sat_sar(self, value):
    self._data['alt_rate_sat_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.alt_rate_sat_sar~', props='C10')
def l1a_del_alt_rate_sat_sar(self):
    del self._data['alt_rate_sat_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.roll_sar', props='C10')
def l1a_get_roll_sar(self):
    return self._data['roll_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.roll_sar=', props='C10')
def l1a_set_roll_sar(self, value):
    self._data['roll_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.roll_sar~', props='C10')
def l1a_del_roll_sar(self):
    del self._data['roll_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pitch_sar', props='C10')
def l1a_get_pitch_sar(self):
    return self._data['pitch_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pitch_sar=', props='C10')
def l1a_set_pitch_sar(self, value):
    self._data['pitch_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pitch_sar~', props='C10')
def l1a_del_pitch_sar(self):
    del self._data['pitch_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.yaw_sar', props='C10')
def l1a_get_yaw_sar(self):
    return self._data['yaw_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.yaw_sar=', props='C10')
def l1a_set_yaw_sar(self, value):
    self._data['yaw_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.yaw_sar~', props='C10')
def l1a_del_yaw_sar(self):
    del self._data['yaw_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.h0_sar', props='C10')
def l1a_get_h0_sar(self):
    return self._data['h0_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.h0_sar=', props='C10')
def l1a_set_h0_sar(self, value):
    self._data['h0_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.h0_sar~', props='C10')
def l1a_del_h0_sar(self):
    del self._data['h0_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.t0_sar', props='C10')
def l1a_get_t0_sar(self):
    return self._data['t0_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.t0_sar=', props='C10')
def l1a_set_t0_sar(self, value):
    self._data['t0_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.t0_sar~', props='C10')
def l1a_del_t0_sar(self):
    del self._data['t0_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cor2_sar', props='C10')
def l1a_get_cor2_sar(self):
    return self._data['cor2_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cor2_sar=', props='C10')
def l1a_set_cor2_sar(self, value):
    self._data['cor2_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cor2_sar~', props='C10')
def l1a_del_cor2_sar(self):
    del self._data['cor2_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.win_delay_sar_ku', props='C10')
def l1a_get_win_delay_sar_ku(self):
    return self._data['win_delay_sar_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.win_delay_sar_ku=', props='C10')
def l1a_set_win_delay_sar_ku(self, value):
    self._data['win_delay_sar_ku'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.win_delay_sar_ku~', props='C10')
def l1a_del_win_delay_sar_ku(self):
    del self._data['win_delay_sar_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.x_sar_surf', props='C10')
def l1a_get_x_sar_surf(self):
    return self._data['x_sar_surf']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.x_sar_surf=', props='C10')
def l1a_set_x_sar_surf(self, value):
    self._data['x_sar_surf'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.x_sar_surf~', props='C10')
def l1a_del_x_sar_surf(self):
    del self._data['x_sar_surf']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.y_sar_surf', props='C10')
def l1a_get_y_sar_surf(self):
    return self._data['y_sar_surf']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.y_sar_surf=', props='C10')
def l1a_set_y_sar_surf(self, value):
    self._data['y_sar_surf'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.y_sar_surf~', props='C10')
def l1a_del_y_sar_surf(self):
    del self._data['y_sar_surf']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.z_sar_surf', props='C10')
def l1a_get_z_sar_surf(self):
    return self._data['z_sar_surf']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.z_sar_surf=', props='C10')
def l1a_set_z_sar_surf(self, value):
    self._data['z_sar_surf'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.z_sar_surf~', props='C10')
def l1a_del_z_sar_surf(self):
    del self._data['z_sar_surf']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.x_sar_sat', props='C10')
def l1a_get_x_sar_sat(self):
    return self._data['x_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.x_sar_sat=', props='C10')
def l1a_set_x_sar_sat(self, value):
    self._data['x_sar_sat'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.x_sar_sat~', props='C10')
def l1a_del_x_sar_sat(self):
    del self._data['x_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.y_sar_sat', props='C10')
def l1a_get_y_sar_sat(self):
    return self._data['y_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.y_sar_sat=', props='C10')
def l1a_set_y_sar_sat(self, value):
    self._data['y_sar_sat'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.y_sar_sat~', props='C10')
def l1a_del_y_sar_sat(self):
    del self._data['y_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.z_sar_sat', props='C10')
def l1a_get_z_sar_sat(self):
    return self._data['z_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.z_sar_sat=', props='C10')
def l1a_set_z_sar_sat(self, value):
    self._data['z_sar_sat'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.z_sar_sat~', props='C10')
def l1a_del_z_sar_sat(self):
    del self._data['z_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beam_angles_list', props='C10')
def l1a_get_beam_angles_list(self):
    return self._data['beam_angles_list']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beam_angles_list=', props='C10')
def l1a_set_beam_angles_list(self, value):
    self._data['beam_angles_list'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beam_angles_list~', props='C10')
def l1a_del_beam_angles_list(self):
    del self._data['beam_angles_list']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beam_angles_trend', props='C10')
def l1a_get_beam_angles_trend(self):
    return self._data['beam_angles_trend']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beam_angles_trend=', props='C10')
def l1a_set_beam_angles_trend(self, value):
    self._data['beam_angles_trend'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beam_angles_trend~', props='C10')
def l1a_del_beam_angles_trend(self):
    del self._data['beam_angles_trend']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.waveform_cor_sar', props='C10')
def l1a_get_waveform_cor_sar(self):
    return self._data['waveform_cor_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.waveform_cor_sar=', props='C10')
def l1a_set_waveform_cor_sar(self, value):
    self._data['waveform_cor_sar'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.waveform_cor_sar~', props='C10')
def l1a_del_waveform_cor_sar(self):
    del self._data['waveform_cor_sar']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.doppler_angle_sar_sat', props='C10')
def l1a_get_doppler_angle_sar_sat(self):
    return self._data['doppler_angle_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.doppler_angle_sar_sat=', props='C10')
def l1a_set_doppler_angle_sar_sat(self, value):
    self._data['doppler_angle_sar_sat'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.doppler_angle_sar_sat~', props='C10')
def l1a_del_doppler_angle_sar_sat(self):
    del self._data['doppler_angle_sar_sat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beams_focused', props='C10')
def l1a_get_beams_focused(self):
    return self._data['beams_focused']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beams_focused=', props='C10')
def l1a_set_beams_focused(self, value):
    self._data['beams_focused'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.beams_focused~', props='C10')
def l1a_del_beams_focused(self):
    del self._data['beams_focused']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal1_power', props='C10')
def l1a_get_cal1_power(self):
    return self._data['cal1_power']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal1_power=', props='C10')
def l1a_set_cal1_power(self, value):
    self._data['cal1_power'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal1_power~', props='C10')
def l1a_del_cal1_power(self):
    del self._data['cal1_power']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal1_phase', props='C10')
def l1a_get_cal1_phase(self):
    return self._data['cal1_phase']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal1_phase=', props='C10')
def l1a_set_cal1_phase(self, value):
    self._data['cal1_phase'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal1_phase~', props='C10')
def l1a_del_cal1_phase(self):
    del self._data['cal1_phase']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal2_array', props='C10')
def l1a_get_cal2_array(self):
    return self._data['cal2_array']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal2_array=', props='C10')
def l1a_set_cal2_array(self, value):
    self._data['cal2_array'] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cal2_array~', props='C10')
def l1a_del_cal2_array(self):
    del self._data['cal2_array']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.isp_coarse_time', props='C10')
def l1a_get_isp_coarse_time(self):
    return self._data['isp_coarse_time']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.isp_fine_time', props='C10')
def l1a_get_isp_fine_time(self):
    return self._data['isp_fine_time']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.sral_fine_time', props='C10')
def l1a_get_sral_fine_time(self):
    return self._data['sral_fine_time']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.flag_time_status', props='C10')
def l1a_get_flag_time_status(self):
    return self._data['flag_time_status']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.nav_bul_status', props='C10')
def l1a_get_nav_bul_status(self):
    return self._data['nav_bul_status']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.nav_bul_source', props='C10')
def l1a_get_nav_bul_source(self):
    return self._data['nav_bul_source']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.source_seq_count', props='C10')
def l1a_get_source_seq_count(self):
    return self._data['source_seq_count']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.oper_instr', props='C10')
def l1a_get_oper_instr(self):
    return self._data['oper_instr']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.SAR_mode', props='C10')
def l1a_get_SAR_mode(self):
    return self._data['SAR_mode']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cl_gain', props='C10')
def l1a_get_cl_gain(self):
    return self._data['cl_gain']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.acq_stat', props='C10')
def l1a_get_acq_stat(self):
    return self._data['acq_stat']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.dem_eeprom', props='C10')
def l1a_get_dem_eeprom(self):
    return self._data['dem_eeprom']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.loss_track', props='C10')
def l1a_get_loss_track(self):
    return self._data['loss_track']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.h0_nav_dem', props='C10')
def l1a_get_h0_nav_dem(self):
    return self._data['h0_nav_dem']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.h0_applied', props='C10')
def l1a_get_h0_applied(self):
    return self._data['h0_applied']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cor2_nav_dem', props='C10')
def l1a_get_cor2_nav_dem(self):
    return self._data['cor2_nav_dem']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cor2_applied', props='C10')
def l1a_get_cor2_applied(self):
    return self._data['cor2_applied']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.dh0', props='C10')
def l1a_get_dh0(self):
    return self._data['dh0']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.agccode_ku', props='C10')
def l1a_get_agccode_ku(self):
    return self._data['agccode_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.range_ku', props='C10')
def l1a_get_range_ku(self):
    return self._data['range_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.int_path_cor_ku', props='C10')
def l1a_get_int_path_cor_ku(self):
    return self._data['int_path_cor_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.agc_ku', props='C10')
def l1a_get_agc_ku(self):
    return self._data['agc_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.sig0_cal_ku', props='C10')
def l1a_get_sig0_cal_ku(self):
    return self._data['sig0_cal_ku']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.uso_cor', props='C10')
def l1a_get_uso_cor(self):
    return self._data['uso_cor']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.surf_type', props='C10')
def l1a_get_surf_type(self):
    return self._data['surf_type']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.roll_sral_mispointing', props='C10')
def l1a_get_roll_sral_mispointing(self):
    return self._data['roll_sral_mispointing']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pitch_sral_mispointing', props='C10')
def l1a_get_pitch_sral_mispointing(self):
    return self._data['pitch_sral_mispointing']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.yaw_sral_mispointing', props='C10')
def l1a_get_yaw_sral_mispointing(self):
    return self._data['yaw_sral_mispointing']


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.cog_cor', props='C10')
def l1a_get_cog_cor(self):
    return self._data['cog_cor']
