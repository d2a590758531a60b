"""Reference: geometry corrections, range compression, sigma-0 scaling (C23, C13, C03)."""
import numpy as np
from numpy.fft import fft, fftshift
from numpy.linalg import norm


@spec('dedop/proc/sar/algorithms/geometry_corrections.py:GeometryCorrectionsAlgorithm.__call__', props='C23 C13 C03')
def geometry_corrections(self, surf, wavelength):
    looks = min(surf.data_stack_size, self.n_looks_stack)
    doppler = np.zeros(self.n_looks_stack, dtype=np.float64)
    slant = np.zeros(self.n_looks_stack, dtype=np.float64)
    window = np.zeros(self.n_looks_stack, dtype=np.float64)
    distance = np.zeros(self.n_looks_stack, dtype=np.float64)
    beams = np.zeros((self.n_looks_stack, self.chd.n_samples_sar), dtype=complex)
    for i in range(looks):
        burst = surf.stack_bursts[i]
        t0 = surf.t0_surf[i]
        # distance satellite - surface, always reported
        dx = burst.x_sar_sat - surf.x_surf
        dy = burst.y_sar_sat - surf.y_surf
        dz = burst.z_sar_sat - surf.z_surf
        distance[i] = np.sqrt(dx ** 2 + dy ** 2 + dz ** 2)
        shift_d = 0.
        shift_s = 0.
        if self.flag_doppler_range_correction:
            # range shift of a chirp by the Doppler frequency 2 v cos(angle) / wavelength
            f_dop = -2 * norm(burst.vel_sat_sar) * np.cos(surf.beam_angles_surf[i]) / wavelength
            shift_d = f_dop * self.chd.pulse_length / self.chd.bw_ku / t0
        if self.flag_slant_range_correction:
            shift_s = (surf.win_delay_surf - 2 * distance[i] / self.cst.c) / t0
        shift_w = (burst.win_delay_sar_ku - surf.win_delay_surf) / t0
        doppler[i] = shift_d
        slant[i] = shift_s
        window[i] = shift_w
        phase = 2j * self.cst.pi * np.arange(self.chd.n_samples_sar) / self.chd.n_samples_sar
        beams[i, :] = surf.beams_surf[i, :] * np.exp(phase * (shift_d + shift_s + shift_w))
    self.doppler_corrections = doppler
    self.slant_range_corrections = slant
    self.win_delay_corrections = window
    self.range_sat_surf = distance
    self.beams_geo_corr = beams


@spec('dedop/proc/sar/algorithms/range_compression.py:RangeCompressionAlgorithm.__call__', props='C23 C03')
def range_compression(self, surf):
    looks = min(surf.data_stack_size, self.n_looks_stack)
    size = self.zp_fact_range * self.chd.n_samples_sar
    iq = np.empty((looks, size), dtype=np.complex128)
    power = np.empty((looks, size), dtype=np.float64)
    for i in range(looks):
        spectrum = fftshift(fft(surf.beams_geo_corr[i, :], n=size, norm='ortho'))
        iq[i, :] = spectrum
        power[i, :] = np.abs(spectrum) ** 2
    self.beam_range_compr_iq = iq
    self.beam_range_compr = power


@spec('dedop/proc/sar/algorithms/sigma_zero_scaling.py:Sigma0ScalingFactorAlgorithm.__call__', props='C23 C03')
def sigma0_scaling(self, surf, wavelength, chirp_slope):
    n = surf.data_stack_size
    factor = np.zeros(n, dtype=np.float64)
    for i in range(min(n, self.cnf.n_looks_stack)):
        burst = surf.stack_bursts[i]
        r = surf.range_sat_surf[i]
        az = (1 + r / self.cst.earth_radius) * wavelength * r / \
            (2 * burst.pri_sar_pre_dat * burst.vel_sat_sar_norm * self.chd.n_ku_pulses_burst)
        rg = 2 * np.sqrt(self.cst.c * r * self.chd.ptr_width *
                         self.cst.earth_radius / (self.cst.earth_radius + r))
        area = 0.886 * az * rg
        factor[i] = surf.closest_burst.agc_ku + 10 * np.log10(area) - 40 * np.log10(r) \
            + 10 * np.log10(self.chd.power_tx_ant_ku) + 2 * self.chd.antenna_gain_ku + 20 * np.log10(wavelength) \
            - self.chd.ratio_trc_ku - 10 * np.log10(self.chd.n_ku_pulses_burst) \
            - 10 * np.log10(64) - 30 * np.log10(self.cst.pi)
    self.sigma0_scaling_factor_beam = factor
    self.sigma0_scaling_factor = np.mean(factor)
    return self.sigma0_scaling_factor
