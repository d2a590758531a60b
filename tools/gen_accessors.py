#!/usr/bin/env python3
"""Writes spec/accessors.py: the reference of the field accessors (every field lives under its own name)."""
import os
SURF = '''sigma0_scaling_factor_beam focus_target_distance time_surf win_delay_surf x_surf y_surf z_surf lat_surf lon_surf
alt_surf x_sat y_sat z_sat lat_sat lon_sat alt_sat x_vel_sat y_vel_sat z_vel_sat alt_rate_sat roll_sat pitch_sat yaw_sat
angular_azimuth_beam_resolution surface_type stack_all_beams_indices stack_all_beams_indices_abs stack_all_bursts
data_stack_size stack_bursts beam_angles_surf surf_sat_vector t0_surf beams_surf beams_geo_corr doppler_corrections
slant_range_corrections win_delay_corrections beams_range_compr beams_range_compr_iq beams_masked look_angles_surf
pointing_angles_surf stack_mask_vector stack_mask doppler_angles_surf range_sat_surf closest_burst_index
sigma0_scaling_factor stack_std stack_max stack_skewness stack_kurtosis waveform_multilooked'''.split()
SURF_GS = '''n_beams_start_stop start_look_angle stop_look_angle start_doppler_angle stop_doppler_angle start_pointing_angle
stop_pointing_angle stack_mask_vector_start_stop start_beam_angle stop_beam_angle start_burst_index stop_burst_index
beam_angles_start_stop look_angles_start_stop'''.split()
SURF_G = 'prev_tai prev_utc_days prev_utc_secs curr_day_length'.split()
L1A = '''isp_pid time_sar_ku days seconds seq_count_sar_ku_fbr inst_id_sar_isp pri_sar_pre_dat ambiguity_order_sar
burst_sar_ku lat_sar_sat lon_sar_sat alt_sar_sat alt_rate_sat_sar roll_sar pitch_sar yaw_sar h0_sar t0_sar cor2_sar
win_delay_sar_ku x_sar_surf y_sar_surf z_sar_surf x_sar_sat y_sar_sat z_sar_sat beam_angles_list beam_angles_trend
waveform_cor_sar doppler_angle_sar_sat beams_focused cal1_power cal1_phase cal2_array'''.split()
L1A_G = '''isp_coarse_time isp_fine_time sral_fine_time flag_time_status nav_bul_status nav_bul_source source_seq_count
oper_instr SAR_mode cl_gain acq_stat dem_eeprom loss_track h0_nav_dem h0_applied cor2_nav_dem cor2_applied dh0 agccode_ku
range_ku int_path_cor_ku agc_ku sig0_cal_ku uso_cor surf_type roll_sral_mispointing pitch_sral_mispointing
yaw_sral_mispointing cog_cor'''.split()
S = 'dedop/model/surface_data.py:SurfaceData.'
L = 'dedop/model/l1a_processing_data.py:L1AProcessingData.'
out = ['"""Reference: field accessors (C10).  Generated by tools/gen_accessors.py."""\n']


def emit(cls, tag, names, kinds):
    for n in names:
        if 'g' in kinds:
            out.append("\n@spec('%s%s', props='C10')\ndef %s_get_%s(self):\n    return self._data['%s']\n" % (cls, n, tag, n, n))
        if 's' in kinds:
            out.append("\n@spec('%s%s=', props='C10')\ndef %s_set_%s(self, value):\n    self._data['%s'] = value\n" % (cls, n, tag, n, n))
        if 'd' in kinds:
            out.append("\n@spec('%s%s~', props='C10')\ndef %s_del_%s(self):\n    del self._data['%s']\n" % (cls, n, tag, n, n))


emit(S, 'surf', SURF, 'gsd')
emit(S, 'surf', SURF_GS, 'gs')
emit(S, 'surf', SURF_G, 'g')
emit(L, 'l1a', L1A, 'gsd')
emit(L, 'l1a', L1A_G, 'g')
open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'accessors.py'), 'w').write('\n'.join(out))
