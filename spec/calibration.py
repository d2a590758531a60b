"""Reference: burst calibration (C01, C13)."""
import numpy as np
from numpy.fft import fft, fftshift, ifft, ifftshift


@spec('dedop/proc/sar/cal/cal1_algorithm.py:CAL1Algorithm.__call__', props='C01 C13')
def cal1(self, burst):
    """per-pulse complex gain: amplitude from the CAL1 power, CAL1 phase, fixed gain removed"""
    if self.cnf.flag_cal1_corrections:
        gain = burst.agc_ku - burst.sig0_cal_ku
        k = np.sqrt(burst.cal1_power) * np.exp(1j * burst.cal1_phase) / np.sqrt(10 ** (gain / 10))
        burst.waveform_cor_sar *= k[:, np.newaxis] * np.ones((1, self.chd.n_samples_sar))


@spec('dedop/proc/sar/cal/cal2_algorithm.py:CAL2Algorithm.__call__', props='C01 C13')
def cal2(self, burst):
    """division of the centred range spectrum by the square root of the transfer function"""
    if self.cnf.flag_cal2_correction:
        table = burst.cal2_array[np.newaxis, :] * np.ones((self.chd.n_ku_pulses_burst, 1))
        spectrum = fftshift(fft(burst.waveform_cor_sar, self.chd.n_samples_sar, 1), 1)
        burst.waveform_cor_sar = ifft(ifftshift(spectrum / np.sqrt(table), 1), self.chd.n_samples_sar, 1)
