"""Reference: hand-over of step results to surfaces and bursts (C10, C05, C03, C21, C11)."""
from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
from dedop.model import SurfaceData


@spec('dedop/proc/sar/processor.py:L1BProcessor.stack_gathering', props='C10 C03', opaque='stack_gathering_algorithm')
def step_stack_gathering(self, surface):
    alg = self.stack_gathering_algorithm
    alg(surface)
    surface.data_stack_size = alg.data_stack_size
    surface.stack_bursts = alg.stack_bursts
    surface.beams_surf = alg.beams_surf
    surface.beam_angles_surf = alg.beam_angles_surf
    surface.t0_surf = alg.t0_surf
    surface.doppler_angles_surf = alg.doppler_angles_surf
    surface.look_angles_surf = alg.look_angles_surf
    surface.pointing_angles_surf = alg.pointing_angles_surf
    surface.look_index_surf = alg.look_index_surf
    surface.look_counter_surf = alg.look_counter_surf
    surface.closest_burst_index = alg.closest_burst_index


@spec('dedop/proc/sar/processor.py:L1BProcessor.geometry_corrections', props='C10 C03',
      opaque='geometry_corrections_algorithm')
def step_geometry_corrections(self, surface):
    alg = self.geometry_corrections_algorithm
    alg(surface, self.chd.wv_length_ku)
    surface.slant_range_corrections = alg.slant_range_corrections
    surface.range_sat_surf = alg.range_sat_surf
    surface.doppler_corrections = alg.doppler_corrections
    surface.win_delay_corrections = alg.win_delay_corrections
    surface.beams_geo_corr = alg.beams_geo_corr


@spec('dedop/proc/sar/processor.py:L1BProcessor.range_compression', props='C10 C03',
      opaque='range_compression_algorithm')
def step_range_compression(self, surface):
    alg = self.range_compression_algorithm
    alg(surface)
    surface.beams_range_compr = alg.beam_range_compr
    surface.beams_range_compr_iq = alg.beam_range_compr_iq


@spec('dedop/proc/sar/processor.py:L1BProcessor.stack_masking', props='C10 C03', opaque='stack_masking_algorithm')
def step_stack_masking(self, surface):
    alg = self.stack_masking_algorithm
    alg(surface)
    surface.beams_masked = alg.beams_masked
    surface.stack_mask_vector = alg.stack_mask_vector
    surface.stack_mask = alg.stack_mask


@spec('dedop/proc/sar/processor.py:L1BProcessor.multilooking', props='C10 C03', opaque='multilooking_algorithm')
def step_multilooking(self, surface):
    alg = self.multilooking_algorithm
    alg(surface)
    surface.stack_max = alg.stack_max
    surface.stack_std = alg.stack_std
    surface.stack_skewness = alg.stack_skewness
    surface.stack_kurtosis = alg.stack_kurtosis
    surface.n_beams_start_stop = alg.n_beams_start_stop
    surface.start_look_angle = alg.start_look_angle
    surface.stop_look_angle = alg.stop_look_angle
    surface.start_doppler_angle = alg.start_doppler_angle
    surface.stop_doppler_angle = alg.stop_doppler_angle
    surface.start_pointing_angle = alg.start_pointing_angle
    surface.stop_pointing_angle = alg.stop_pointing_angle
    surface.start_beam_angle = alg.start_beam_angle
    surface.stop_beam_angle = alg.stop_beam_angle
    surface.start_burst_index = alg.start_burst_index
    surface.stop_burst_index = alg.stop_burst_index
    surface.stack_mask_vector_start_stop = alg.stack_mask_vector_start_stop
    surface.beam_angles_start_stop = alg.beam_angles_start_stop
    surface.look_angles_start_stop = alg.look_angles_start_stop
    surface.waveform_multilooked = alg.waveform_multilooked


@spec('dedop/proc/sar/processor.py:L1BProcessor.sigma_zero_scaling', props='C10 C03', opaque='sigma_zero_algorithm')
def step_sigma_zero(self, surface):
    alg = self.sigma_zero_algorithm
    surface.sigma0_scaling_factor = alg(surface, self.chd.wv_length_ku, self.chd.chirp_slope_ku)
    surface.sigma0_scaling_factor_beam = alg.sigma0_scaling_factor_beam


@spec('dedop/proc/sar/processor.py:L1BProcessor.azimuth_processing', props='C10 C03',
      opaque='azimuth_processing_algorithm')
def step_azimuth(self, burst):
    alg = self.azimuth_processing_algorithm
    alg(burst, self.chd.wv_length_ku)
    burst.beams_focused = alg.beams_focused


@spec('dedop/proc/sar/processor.py:L1BProcessor.beam_angles', props='C10 C21 C03',
      opaque='beam_angles_algorithm calculate_beam_angles_trend add_stack_beam_index add_stack_burst')
def step_beam_angles(self, surfaces, burst, work):
    alg = self.beam_angles_algorithm
    alg(surfaces, burst, work)
    burst.beam_angles_list = alg.beam_angles
    burst.surfaces_seen_list = alg.surfaces_seen
    burst.calculate_beam_angles_trend(self.beam_angles_list_size_prev, self.beam_angles_trend_prev)
    self.beam_angles_list_size_prev = len(burst.beam_angles_list)
    self.beam_angles_trend_prev = burst.beam_angles_trend
    done = 0
    for i, counter in enumerate(burst.surfaces_seen_list):
        for s in surfaces[done:]:
            done += 1
            if s.surface_counter == counter:
                s.add_stack_beam_index(i, burst.beam_angles_trend, len(burst.beam_angles_list))
                s.add_stack_burst(burst)
                break


@spec('dedop/proc/sar/processor.py:L1BProcessor.surface_locations', props='C05 C09 C10',
      opaque='surface_locations_algorithm new_surface get_surface')
def step_surface_locations(self, burst, force_new):
    self._packets.append(burst)
    if self.surface_locations_algorithm(self._surfaces, self._packets, force_new=force_new):
        return self.new_surface(self.surface_locations_algorithm.get_surface())
    return None


@spec('dedop/proc/sar/processor.py:L1BProcessor.new_surface', props='C05 C10 C02',
      opaque='compute_surf_sat_vector compute_angular_azimuth_beam_resolution')
def new_surface(self, data):
    s = SurfaceData(self.cst, self.chd, self.surfaces_count, **data)
    self.surfaces_count += 1
    self._surfaces.append(s)
    s.compute_surf_sat_vector()
    s.compute_angular_azimuth_beam_resolution(self.chd.pri_sar)
    return s


@spec('dedop/proc/sar/processor.py:L1BProcessor.clear_old_records', props='C05 C03')
def clear_old_records(self, surface):
    while self._packets:
        if self._packets[0].counter == surface.stack_all_bursts[0].counter:
            break
        self._packets.pop(0)
    self._surfaces.pop(0)
