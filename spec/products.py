"""Reference: the products (C05, C06, C07)."""
from math import degrees
from collections import OrderedDict
from enum import Enum
import os
import netCDF4 as nc
import numpy as np
from dedop.data.output.netcdf_writer import NetCDFWriter, WriteError
from dedop.version import __version__

N = 'dedop/data/output/netcdf_writer.py:NetCDFWriter.'


def utc(surf):
    """day and second of the surface time, from the last known UTC/TAI pair"""
    secs = surf.prev_utc_secs + (surf.time_surf - surf.prev_tai)
    if secs > surf.curr_day_length:
        return surf.prev_utc_days + 1, secs - surf.curr_day_length
    return surf.prev_utc_days, secs


@spec('dedop/data/output/l1b_writer.py:L1BWriterExtended.write_record', props='', opaque='write_record')
def record_l1b_extended(self, surf):
    near = surf.closest_burst
    utc_days, utc_secs = utc(surf)
    scale_factor = surf.waveform_multilooked.max()
    super().write_record(
        time_l1b_echo_sar_ku=surf.time_surf,
        UTC_day_l1b_echo_sar_ku=utc_days,
        UTC_sec_l1b_echo_sar_ku=utc_secs,
        GPS_time_l1b_echo_sar_ku=surf.gps_time_surf,
        isp_coarse_time_l1b_echo_sar_ku=near.isp_coarse_time,
        isp_fine_time_l1b_echo_sar_ku=near.isp_fine_time,
        sral_fine_time_l1b_echo_sar_ku=near.sral_fine_time,
        lat_l1b_echo_sar_ku=degrees(surf.lat_surf),
        lon_l1b_echo_sar_ku=degrees(surf.lon_surf),
        alt_l1b_echo_sar_ku=surf.alt_sat,
        orb_alt_rate_l1b_echo_sar_ku=surf.alt_rate_sat,
        flag_time_status_l1b_echo_sar_ku=near.flag_time_status,
        flag_man_pres_l1b_echo_sar_ku=None,
        flag_man_thrust_l1b_echo_sar_ku=None,
        flag_man_plane_l1b_echo_sar_ku=None,
        flag_gnss_status_l1b_echo_sar_ku=None,
        x_pos_l1b_echo_sar_ku=surf.x_sat,
        y_pos_l1b_echo_sar_ku=surf.y_sat,
        z_pos_l1b_echo_sar_ku=surf.z_sat,
        x_vel_l1b_echo_sar_ku=surf.x_vel_sat,
        y_vel_l1b_echo_sar_ku=surf.y_vel_sat,
        z_vel_l1b_echo_sar_ku=surf.z_vel_sat,
        roll_sat_pointing_l1b_echo_sar_ku=degrees(surf.roll_sat),
        pitch_sat_pointing_l1b_echo_sar_ku=degrees(surf.pitch_sat),
        yaw_sat_pointing_l1b_echo_sar_ku=degrees(surf.yaw_sat),
        nav_bul_status_l1b_echo_sar_ku=near.nav_bul_status,
        nav_bul_source_l1b_echo_sar_ku=near.nav_bul_source,
        nav_bul_coarse_time_l1b_echo_sar_ku=None,
        nav_bul_fine_time_l1b_echo_sar_ku=None,
        seq_count_l1b_echo_sar_ku=near.source_seq_count,
        oper_instr_l1b_echo_sar_ku=near.oper_instr,
        SAR_mode_l1b_echo_sar_ku=near.SAR_mode,
        cl_gain_l1b_echo_sar_ku=near.cl_gain,
        acq_stat_l1b_echo_sar_ku=near.acq_stat,
        dem_eeprom_l1b_echo_sar_ku=near.dem_eeprom,
        weighting_l1b_echo_sar_ku=None,
        loss_track_l1b_echo_sar_ku=near.loss_track,
        h0_nav_dem_l1b_echo_sar_ku=near.h0_nav_dem,
        h0_applied_l1b_echo_sar_ku=near.h0_applied,
        cor2_nav_dem_l1b_echo_sar_ku=near.cor2_nav_dem,
        cor2_applied_l1b_echo_sar_ku=near.cor2_applied,
        dh0_l1b_echo_sar_ku=near.dh0,
        agccode_ku_l1b_echo_sar_ku=near.agccode_ku,
        surf_type_l1b_echo_sar_ku=near.surf_type,
        range_ku_l1b_echo_sar_ku=surf.win_delay_surf * self.cst.c / 2.0,
        uso_cor_l1b_echo_sar_ku=near.uso_cor,
        int_path_cor_ku_l1b_echo_sar_ku=near.int_path_cor_ku,
        range_rate_l1b_echo_sar_ku=None,
        agc_ku_l1b_echo_sar_ku=near.agc_ku,
        scale_factor_ku_l1b_echo_sar_ku=surf.sigma0_scaling_factor,
        agc_cor_ku_l1b_echo_sar_ku=near.agc_ku - near.agccode_ku,
        sig0_cal_ku_l1b_echo_sar_ku=near.sig0_cal_ku,
        nb_stack_l1b_echo_sar_ku=surf.n_beams_start_stop,
        max_stack_l1b_echo_sar_ku=surf.stack_max,
        stdev_stack_l1b_echo_sar_ku=surf.stack_std,
        skew_stack_l1b_echo_sar_ku=surf.stack_skewness,
        kurt_stack_l1b_echo_sar_ku=surf.stack_kurtosis,
        beam_ang_l1b_echo_sar_ku=surf.beam_angles_surf,
        look_ang_l1b_echo_sar_ku=surf.look_angles_surf,
        beam_form_l1b_echo_sar_ku=None,
        i2q2_meas_ku_l1b_echo_sar_ku=surf.waveform_multilooked / scale_factor,
        i2q2_scale_factor_l1b_echo_sar_ku=scale_factor,
        start_look_angle_stack_l1b_echo_sar_ku=surf.start_look_angle,
        stop_look_angle_stack_l1b_echo_sar_ku=surf.stop_look_angle,
        start_beam_ang_stack_l1b_echo_sar_ku=surf.start_beam_angle,
        stop_beam_ang_stack_l1b_echo_sar_ku=surf.stop_beam_angle,
        stack_mask_vector_l1b_echo_sar_ku=surf.stack_mask_vector_start_stop,
        stack_scale_factor_ku_l1b_echo_sar_ku=surf.sigma0_scaling_factor_beam
    )


@spec('dedop/data/output/l1b_writer.py:L1BWriter.write_record', props='', opaque='write_record')
def record_l1b_s3(self, surf):
    near = surf.closest_burst
    utc_days, utc_secs = utc(surf)
    super().write_record(
        time_l1b_echo_sar_ku=surf.time_surf,
        UTC_day_l1b_echo_sar_ku=utc_days,
        UTC_sec_l1b_echo_sar_ku=utc_secs,
        GPS_time_l1b_echo_sar_ku=surf.gps_time_surf,
        isp_coarse_time_l1b_echo_sar_ku=near.isp_coarse_time,
        isp_fine_time_l1b_echo_sar_ku=near.isp_fine_time,
        sral_fine_time_l1b_echo_sar_ku=near.sral_fine_time,
        lat_l1b_echo_sar_ku=degrees(surf.lat_surf),
        lon_l1b_echo_sar_ku=degrees(surf.lon_surf),
        alt_l1b_echo_sar_ku=surf.alt_sat,
        orb_alt_rate_l1b_echo_sar_ku=surf.alt_rate_sat,
        flag_time_status_l1b_echo_sar_ku=near.flag_time_status,
        flag_man_pres_l1b_echo_sar_ku=None,
        flag_man_thrust_l1b_echo_sar_ku=None,
        flag_man_plane_l1b_echo_sar_ku=None,
        flag_gnss_status_l1b_echo_sar_ku=None,
        x_pos_l1b_echo_sar_ku=surf.x_sat,
        y_pos_l1b_echo_sar_ku=surf.y_sat,
        z_pos_l1b_echo_sar_ku=surf.z_sat,
        x_vel_l1b_echo_sar_ku=surf.x_vel_sat,
        y_vel_l1b_echo_sar_ku=surf.y_vel_sat,
        z_vel_l1b_echo_sar_ku=surf.z_vel_sat,
        nav_bul_status_l1b_echo_sar_ku=near.nav_bul_status,
        nav_bul_source_l1b_echo_sar_ku=near.nav_bul_source,
        nav_bul_coarse_time_l1b_echo_sar_ku=None,
        nav_bul_fine_time_l1b_echo_sar_ku=None,
        seq_count_l1b_echo_sar_ku=near.source_seq_count,
        oper_instr_l1b_echo_sar_ku=near.oper_instr,
        SAR_mode_l1b_echo_sar_ku=near.SAR_mode,
        cl_gain_l1b_echo_sar_ku=near.cl_gain,
        acq_stat_l1b_echo_sar_ku=near.acq_stat,
        dem_eeprom_l1b_echo_sar_ku=near.dem_eeprom,
        weighting_l1b_echo_sar_ku=None,
        loss_track_l1b_echo_sar_ku=near.loss_track,
        h0_nav_dem_l1b_echo_sar_ku=near.h0_nav_dem,
        h0_applied_l1b_echo_sar_ku=near.h0_applied,
        cor2_nav_dem_l1b_echo_sar_ku=near.cor2_nav_dem,
        cor2_applied_l1b_echo_sar_ku=near.cor2_applied,
        dh0_l1b_echo_sar_ku=near.dh0,
        agccode_ku_l1b_echo_sar_ku=near.agccode_ku,
        surf_type_l1b_echo_sar_ku=near.surf_type,
        range_ku_l1b_echo_sar_ku=surf.win_delay_surf * self.cst.c / 2.0,
        uso_cor_l1b_echo_sar_ku=near.uso_cor,
        int_path_cor_ku_l1b_echo_sar_ku=near.int_path_cor_ku,
        range_rate_l1b_echo_sar_ku=None,
        agc_ku_l1b_echo_sar_ku=near.agc_ku,
        scale_factor_ku_l1b_echo_sar_ku=surf.sigma0_scaling_factor,
        agc_cor_ku_l1b_echo_sar_ku=near.agc_ku - near.agccode_ku,
        sig0_cal_ku_l1b_echo_sar_ku=near.sig0_cal_ku,
        nb_stack_l1b_echo_sar_ku=surf.data_stack_size,
        max_stack_l1b_echo_sar_ku=surf.stack_max,
        stdev_stack_l1b_echo_sar_ku=surf.stack_std,
        skew_stack_l1b_echo_sar_ku=surf.stack_skewness,
        kurt_stack_l1b_echo_sar_ku=surf.stack_kurtosis,
        beam_ang_l1b_echo_sar_ku=-surf.look_angles_surf,
        beam_form_l1b_echo_sar_ku=None,
        i2q2_meas_ku_l1b_echo_sar_ku=surf.waveform_multilooked
    )


@spec('dedop/data/output/l1bs_writer.py:L1BSWriter.write_record', props='', opaque='write_record')
def record_l1bs(self, surf):
    near = surf.closest_burst
    utc_days, utc_secs = utc(surf)
    stack_i = np.real(surf.beams_range_compr_iq)
    stack_q = np.imag(surf.beams_range_compr_iq)
    dynamic_scale = max(np.max(np.abs(stack_i)), np.max(np.abs(stack_q))) / 127.
    scale_factor = pow(10, -near.agc_ku / 10)
    super().write_record(
        time_l1bs_echo_sar_ku=surf.time_surf,
        UTC_day_l1bs_echo_sar_ku=utc_days,
        UTC_sec_l1bs_echo_sar_ku=utc_secs,
        lat_l1bs_echo_sar_ku=degrees(surf.lat_surf),
        lon_l1bs_echo_sar_ku=degrees(surf.lon_surf),
        surf_type_l1bs_echo_sar_ku=near.surf_type,
        records_count_l1bs_echo_sar_ku=surf.surface_counter,
        alt_l1bs_echo_sar_ku=surf.alt_sat,
        orb_alt_rate_l1bs_echo_sar_ku=surf.alt_rate_sat,
        x_pos_l1bs_echo_sar_ku=surf.x_sat,
        y_pos_l1bs_echo_sar_ku=surf.y_sat,
        z_pos_l1bs_echo_sar_ku=surf.z_sat,
        x_vel_l1bs_echo_sar_ku=surf.x_vel_sat,
        y_vel_l1bs_echo_sar_ku=surf.y_vel_sat,
        z_vel_l1bs_echo_sar_ku=surf.z_vel_sat,
        meas_x_pos_l1bs_echo_sar_ku=surf.x_surf,
        meas_y_pos_l1bs_echo_sar_ku=surf.y_surf,
        meas_z_pos_l1bs_echo_sar_ku=surf.z_surf,
        roll_sat_pointing_l1bs_echo_sar_ku=degrees(surf.roll_sat),
        pitch_sat_pointing_l1bs_echo_sar_ku=degrees(surf.pitch_sat),
        yaw_sat_pointing_l1bs_echo_sar_ku=degrees(surf.yaw_sat),
        roll_sral_mispointing_l1bs_echo_sar_ku=near.roll_sral_mispointing,
        pitch_sral_mispointing_l1bs_echo_sar_ku=near.pitch_sral_mispointing,
        yaw_sral_mispointing_l1bs_echo_sar_ku=near.yaw_sral_mispointing,
        range_ku_l1bs_echo_sar_ku=surf.win_delay_surf * self.cst.c / 2.0,
        int_path_cor_ku_l1bs_echo_sar_ku=near.int_path_cor_ku,
        uso_cor_l1bs_echo_sar_ku=near.uso_cor,
        cog_cor_l1bs_echo_sar_ku=near.cog_cor,
        agccode_ku_l1bs_echo_sar_ku=near.agccode_ku,
        agc_ku_l1bs_echo_sar_ku=near.agc_ku,
        scale_factor_ku_l1bs_echo_sar_ku=surf.sigma0_scaling_factor,
        sig0_cal_ku_l1bs_echo_sar_ku=near.sig0_cal_ku,
        snr_ku_l1bs_echo_sar_ku=None,
        i2q2_meas_ku_l1bs_echo_sar_ku=surf.waveform_multilooked * scale_factor,
        nb_stack_l1bs_echo_sar_ku=surf.data_stack_size,
        max_stack_l1bs_echo_sar_ku=surf.stack_max,
        max_loc_stack_l1bs_echo_sar_ku=None,
        stdev_stack_l1bs_echo_sar_ku=surf.stack_std,
        skew_stack_l1bs_echo_sar_ku=surf.stack_skewness,
        kurt_stack_l1bs_echo_sar_ku=surf.stack_kurtosis,
        beam_ang_l1bs_echo_sar_ku=surf.beam_angles_start_stop,
        beam_form_l1bs_echo_sar_ku=None,
        burst_start_ind_l1bs_echo_sar_ku=surf.start_burst_index,
        burst_stop_ind_l1bs_echo_sar_ku=surf.stop_burst_index,
        iq_scale_factor_l1bs_echo_sar_ku=dynamic_scale,
        i_echoes_ku_l1bs_echo_sar_ku=stack_i / dynamic_scale,
        q_echoes_ku_l1bs_echo_sar_ku=stack_q / dynamic_scale,
        start_look_angle_stack_l1bs_echo_sar_ku=surf.start_look_angle,
        stop_look_angle_stack_l1bs_echo_sar_ku=surf.stop_look_angle,
        start_beam_ang_stack_l1bs_echo_sar_ku=surf.start_beam_angle,
        stop_beam_ang_stack_l1bs_echo_sar_ku=surf.stop_beam_angle
    )


# ---------------------------------------------------------------- base writer

@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.__init__', props='C05 C06 C02')
def nc_init(self, filename):
    self._file_path = filename
    os.makedirs(os.path.dirname(filename), exist_ok=True)
    self._root = nc.Dataset(filename, 'w', format="NETCDF4")
    self._dimensions = OrderedDict()
    self._variables = OrderedDict()
    self.dimensions = {}
    self.variables = {}
    self.output_index = 0
    self._root.software_name = 'dedop'
    self._root.software_version = __version__


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.file_path', props='C05')
def nc_file_path(self):
    return self._file_path


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.__enter__', props='C05')
def nc_enter(self):
    self.output_index = 0
    return self


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.__exit__', props='C04')
def nc_exit(self, exc_type, exc_val, exc_tb):
    self._root.close()


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.close', props='C04')
def nc_close(self):
    self._root.close()


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.define_dimension', props='C06')
def nc_define_dimension(self, name, size=None):
    self._dimensions[name] = size


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.define_variable', props='C06')
def nc_define_variable(self, name, data_type, dimensions, *pairs, **attrs):
    d = OrderedDict([('data_type', data_type), ('dimensions', dimensions)] + list(pairs))
    d.update(attrs)
    self._variables[name] = d


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.get_dimension_size', props='C06')
def nc_get_dimension_size(self, name):
    return self._dimensions[name]


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.get_variable_descriptor', props='C06', new='VariableDescriptor')
def nc_descriptor(self, name):
    data = self._variables[name]
    dtype = data.pop("data_type")
    dims = data.pop("dimensions")
    long_name = data.pop("long_name", None)
    props = data.pop("properties", None)
    desc = self.VariableDescriptor(name, dtype, dims, long_name, **data)
    if props is not None:
        desc.set_properties(**props)
    return desc


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.open', props='C05 C06', opaque='create_all_dimensions create_all_variables')
def nc_open(self):
    self.create_all_dimensions()
    self.create_all_variables()
    self.output_index = 0


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.create_all_dimensions', props='C06', opaque='create_dimension')
def nc_create_all_dimensions(self, *only):
    for name in self._dimensions:
        if not only or name in only:
            dim = self.create_dimension(name, self.get_dimension_size(name))
            setattr(self, dim.name, dim)


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.create_all_variables', props='C06', opaque='create_variable get_variable_descriptor')
def nc_create_all_variables(self, *only):
    for name in self._variables:
        if not only or name in only:
            var = self.create_variable(name, self.get_variable_descriptor(name))
            setattr(self, var.name, var)


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.create_dimension', props='C06')
def nc_create_dimension(self, name, size=None):
    dim = self._root.createDimension(name.value if isinstance(name, Enum) else name, size)
    self.dimensions[name] = dim
    return dim


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.create_variable', props='C06',
      pure='get_properties get_attributes')
def nc_create_variable(self, name, desc):
    var = self._root.createVariable(name.value if isinstance(name, Enum) else name, desc.data_type,
                                    tuple(self.dimensions[d].name for d in desc.dimensions), **desc.get_properties())
    for k, value in desc.get_attributes().items():
        if isinstance(value, tuple) and any(isinstance(x, str) for x in value):
            value = " ".join(value)
        if isinstance(value, str):
            value = value.encode()
        var.setncattr(k, value)
    return var


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.get_variable', props='C05 C07')
def nc_get_variable(self, name):
    return getattr(self, name)


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.write_record', props='C05 C07')
def nc_write_record(self, **values):
    for name, value in values.items():
        var = self.get_variable(name)
        if value is None:
            continue
        try:
            if len(var.shape) == 3:
                n, m = value.shape
                var[self.output_index, :n, :m] = value[:, :]
            elif len(var.shape) == 2:
                var[self.output_index, :len(value)] = value[:]
            elif len(var.shape) == 1:
                var[self.output_index] = value
            else:
                raise WriteError('dimensions', value.shape)
        except Exception as err:
            raise WriteError('write', err)
    self.output_index += 1


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.write_globals', props='C07', opaque='write_global')
def nc_write_globals(self, **attrs):
    for name, value in attrs.items():
        self.write_global(name, value)


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.write_global', props='C07')
def nc_write_global(self, name, value=None):
    self._root.setncattr(name, 'Not available' if value is None else value)


V = 'dedop/data/output/netcdf_writer.py:NetCDFWriter.VariableDescriptor.'


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.VariableDescriptor.__init__', props='C06')
def desc_init(self, name, data_type, dimensions, long_name, fill_value=None, **attrs):
    self.name = name
    self.data_type = data_type
    self.dimensions = dimensions
    self.attrs = attrs
    self.attrs["long_name"] = long_name
    self.props = {}
    if fill_value is not None:
        self.props["fill_value"] = fill_value


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.VariableDescriptor.set_property', props='C06')
def desc_set_property(self, name, value):
    self.props[name] = value


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.VariableDescriptor.set_properties', props='C06')
def desc_set_properties(self, **props):
    self.props.update(props)


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.VariableDescriptor.get_properties', props='C06')
def desc_get_properties(self):
    return dict(self.props)


@spec('dedop/data/output/netcdf_writer.py:NetCDFWriter.VariableDescriptor.get_attributes', props='C06')
def desc_get_attributes(self):
    return dict(self.attrs)
