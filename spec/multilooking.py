"""Reference: stack characterisation, antenna weighting and multilooking (C24, C13, C03)."""
import warnings
import numpy as np
from scipy.optimize import curve_fit, OptimizeWarning


def bell(x, a, b, c):
    return a * np.exp(-(x - b) ** 2 / (c ** 2))


def fit(x, y):
    """Gaussian fit over the finite points; neutral parameters when it fails."""
    valid = np.isfinite(x) * np.isfinite(y)
    with warnings.catch_warnings():
        warnings.simplefilter("error", OptimizeWarning)
        try:
            params, _ = curve_fit(bell, x[valid], y[valid])
        except (RuntimeError, OptimizeWarning, TypeError):
            return [1, 1, 1]
    return params


def weight(self, angle):
    """linear interpolation in the antenna weight table"""
    angles = self.chd.antenna_angles
    weights = self.chd.antenna_weights
    if angle <= angles[0]:
        return weights[0]
    if angle >= angles[-1]:
        return weights[-1]
    k = int((angle - angles[0]) / self.chd.antenna_angles_spacing)
    part = (angle - angles[k]) / self.chd.antenna_angles_spacing
    return weights[k] + part * (weights[k + 1] - weights[k])


@spec('dedop/proc/sar/algorithms/multilooking.py:MultilookingAlgorithm.__call__', props='C24 C13 C03')
def multilooking(self, surf):
    looks = min(self.n_looks_stack, surf.data_stack_size)

    # ---- stack characterisation
    centre = np.argmin(np.abs(self.cst.pi / 2 - surf.beam_angles_surf))
    width = (self.chd.n_samples_sar // 2) * self.zp_fact_range
    power = np.zeros(surf.data_stack_size, dtype=np.float64)
    top = 0
    for i in range(looks):
        power[i] = np.sum(surf.beams_masked[i, :width])
        if power[i] > top:
            top = power[i]
    first = max(centre - 124, 0)
    last = min(centre + 124, looks - 1)
    n = last - first + 1
    p = np.empty(n, dtype=np.float64)
    look = np.empty(n, dtype=np.float64)
    pointing = np.empty(n, dtype=np.float64)
    for i in range(first, last + 1):
        p[i - first] = power[i] / top
        look[i - first] = surf.look_angles_surf[i]
        pointing[i - first] = surf.pointing_angles_surf[i]
    by_look = fit(look, p)
    self.stack_max = by_look[0]
    self.look_angle_centre = by_look[1]
    self.stack_std = by_look[2] / 2
    self.pointing_angle_centre = fit(pointing, p)[1]
    x = np.arange(n)
    params = fit(x, p)
    fitted = bell(x, *params)
    mean = np.mean(fitted)
    std = np.std(fitted)
    s3 = 0
    s4 = 0
    for i in range(n):
        s3 += ((fitted[i] - mean) / std) ** 3
        s4 += ((fitted[i] - mean) / std) ** 4
    self.stack_skewness = s3 / n
    self.stack_kurtosis = s4 / n - 3

    # ---- antenna weighting
    if self.cnf.flag_antenna_weighting:
        beams = np.empty(surf.beams_masked.shape, dtype=np.float64)
        for i in range(min(surf.data_stack_size, self.cnf.n_looks_stack)):
            beams[i, :] = surf.beams_masked[i, :] * weight(self, surf.pointing_angles_surf[i])
    else:
        beams = surf.beams_masked

    # ---- multilooking
    samples = self.chd.n_samples_sar * self.zp_fact_range
    total = np.zeros(samples, dtype=np.float64)
    counter = np.zeros(samples, dtype=np.float64)
    count = 0
    start = None
    stop = None
    for i in range(looks):
        if surf.stack_mask_vector[i] != 0:
            count += 1
            if start is None:
                start = i
            stop = i
            m = surf.stack_mask[i, :] if self.flag_avoid_zeros_in_multilooking else 1
            total[:] += beams[i, :] * m
            counter[:] += m
    self.n_beams_multilooking = count
    self.sample_counter = counter
    self.waveform_multilooked = total / counter
    vec = np.zeros(self.n_looks_stack, dtype=surf.stack_mask_vector.dtype)
    beam_angles = np.zeros(self.n_looks_stack, dtype=surf.beam_angles_surf.dtype)
    look_angles = np.zeros(self.n_looks_stack, dtype=surf.look_angles_surf.dtype)
    if stop is None or start is None:
        self.n_beams_start_stop = 0
        self.start_look_angle = self.stop_look_angle = 0
        self.start_doppler_angle = self.stop_doppler_angle = 0
        self.start_pointing_angle = self.stop_pointing_angle = 0
        self.start_beam_angle = self.stop_beam_angle = 0
        self.start_burst_index = self.stop_burst_index = 0
    else:
        m = stop - start + 1
        self.n_beams_start_stop = m
        self.start_look_angle = surf.look_angles_surf[start]
        self.stop_look_angle = surf.look_angles_surf[stop]
        self.start_doppler_angle = surf.doppler_angles_surf[start]
        self.stop_doppler_angle = surf.doppler_angles_surf[stop]
        self.start_pointing_angle = surf.pointing_angles_surf[start]
        self.stop_pointing_angle = surf.pointing_angles_surf[stop]
        self.start_beam_angle = surf.beam_angles_surf[start]
        self.stop_beam_angle = surf.beam_angles_surf[stop]
        self.start_burst_index = surf.stack_bursts[0].source_seq_count
        self.stop_burst_index = surf.stack_bursts[looks - 1].source_seq_count
        vec[:m] = surf.stack_mask_vector[start:stop + 1]
        beam_angles[:m] = surf.beam_angles_surf[start:stop + 1]
        look_angles[:m] = surf.look_angles_surf[start:stop + 1]
    self.stack_mask_vector_start_stop = vec
    self.beam_angles_start_stop = beam_angles
    self.look_angles_start_stop = look_angles
