"""Reference: beam angles, azimuth focusing (C21, C22, C13, C03)."""
from math import acos, cos
import numpy as np
from numpy.linalg import norm
from dedop.conf.enums import AzimuthWindowingMethod, AzimuthProcessingMethod


@spec('dedop/proc/sar/algorithms/beam_angles.py:BeamAnglesAlgorithm.__call__', props='C21 C03 C02')
def beam_angles(self, surfaces, burst, work):
    speed = burst.vel_sat_sar_norm
    q = acos(self.cst.c / (4. * self.chd.pri_sar * self.chd.freq_ku * speed))
    self.work_location_seen = False
    self.beam_angles = []
    self.surfaces_seen = []
    seen = False
    for surface in surfaces:
        before = seen
        d = np.matrix([surface.x_surf - burst.x_sar_sat,
                       surface.y_surf - burst.y_sar_sat,
                       surface.z_surf - burst.z_sar_sat])
        angle = acos(np.dot(d, burst.vel_sat_sar) / (norm(d) * speed))
        view = angle - burst.doppler_angle_sar_sat
        seen = q <= view and view <= self.cst.pi - q
        if seen:
            self.beam_angles.append(angle)
            self.surfaces_seen.append(surface.surface_counter)
            # at most one surface per pulse: drop the oldest
            if len(self.beam_angles) > self.chd.n_ku_pulses_burst:
                self.beam_angles.pop(0)
                self.surfaces_seen.pop(0)
            if work == surface:
                self.work_location_seen = True
        elif before:
            break


def window(self, kind, width):
    n_pulses = self.chd.n_ku_pulses_burst
    w = np.zeros(n_pulses, dtype=np.float64)
    start = n_pulses // 2 - width // 2
    ramp = np.cos(2. * self.cst.pi * np.arange(width) / (width - 1))
    if kind == AzimuthWindowingMethod.disabled:
        w[:] = 1.
    elif kind == AzimuthWindowingMethod.boxcar:
        w[start:start + width] = 1.
    elif kind == AzimuthWindowingMethod.hamming:
        w[start:start + width] = .54 - .46 * ramp
    elif kind == AzimuthWindowingMethod.hanning:
        w[start:start + width] = .5 - .5 * ramp
    else:
        raise NotImplementedError()
    return w


def focus(self, burst, wfm, angle, wavelength):
    steered = np.empty(wfm.shape, dtype=np.complex128)
    for p in range(self.chd.n_ku_pulses_burst):
        rotation = -4j * self.cst.pi * norm(burst.vel_sat_sar) * cos(angle) * burst.pri_sar_pre_dat * p / wavelength
        steered[p, :] = wfm[p, :] * np.exp(rotation)
    return np.fft.fftshift(np.fft.fft(steered, axis=0, norm='ortho'), axes=0)


@spec('dedop/proc/sar/algorithms/azimuth_processing.py:AzimuthProcessingAlgorithm.__call__', props='C22 C13 C03')
def azimuth_processing(self, burst, wavelength):
    w = window(self, self.cnf.flag_azimuth_windowing_method, self.cnf.azimuth_window_width)
    wfm = burst.waveform_cor_sar * w[:, np.newaxis]
    beams = np.empty(burst.waveform_cor_sar.shape, dtype=np.complex128)
    n_pulses = self.chd.n_ku_pulses_burst
    half = n_pulses // 2
    method = self.cnf.flag_azimuth_processing_method
    n = len(burst.beam_angles_list)
    self.beams_focused = beams
    if method == AzimuthProcessingMethod.approximate:
        trend = burst.beam_angles_trend
        if trend == 1:      # growing list: nadir is the first of the last half
            nadir = 0 if n < half else -half
        elif trend == -1:   # shrinking list
            nadir = -1 if n <= half else half
        elif trend == 0:
            nadir = half
        else:
            raise Exception()
        out = focus(self, burst, wfm, burst.beam_angles_list[nadir], wavelength)
        skip = n_pulses - n if trend == 1 else 0
        beams[:n_pulses - skip, :] = out[skip:, :]
    elif method == AzimuthProcessingMethod.exact:
        for i, angle in enumerate(burst.beam_angles_list):
            beams[i, :] = focus(self, burst, wfm, angle, wavelength)[half, :]
    else:
        raise ValueError()
