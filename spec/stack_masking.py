"""Reference: stack masking (C24, C13, C03)."""
import numpy as np


@spec('dedop/proc/sar/algorithms/stack_masking.py:StackMaskingAlgorithm.__call__', props='C24 C13 C03')
def stack_masking(self, surf):
    samples = self.chd.n_samples_sar * self.zp_fact_range
    if not self.flag_stack_masking:
        # neutral: everything kept, all samples valid
        self.stack_mask = np.ones((self.n_looks_stack, samples), dtype=np.float64)
        self.stack_mask_vector = (samples - 1) * np.ones(self.n_looks_stack, dtype=np.float64)
        self.beams_masked = surf.beams_range_compr
        return
    looks = min(surf.data_stack_size, self.n_looks_stack)
    inside = np.zeros((self.n_looks_stack, samples), dtype=np.float64)
    for i in range(looks):
        shift = np.round(surf.doppler_corrections[i] + surf.slant_range_corrections[i] +
                         surf.win_delay_corrections[i])
        first = shift * self.zp_fact_range if shift > 0 else 0
        last = samples if shift > 0 else (self.chd.n_samples_sar - abs(shift)) * self.zp_fact_range
        if first < last:
            inside[i, int(first):int(last)] = 1
    seen = np.ones((self.n_looks_stack, samples), dtype=np.float64)
    if self.chd.look_angle_mask_min is not None and self.chd.look_angle_mask_max is not None:
        for i in range(looks):
            a = surf.look_angles_surf[i]
            seen[i, :] = self.chd.look_angle_mask_min < a < self.chd.look_angle_mask_max
    shape = inside.shape
    rows = shape[0]
    width = shape[1]
    mask = np.zeros((rows, width), dtype=np.float64)
    end = np.zeros(rows, dtype=np.float64)
    for i in range(rows):
        mask[i, :] = inside[i, :] * seen[i, :]
        if mask[i, -1] == 1.:
            end[i] = width - 1
        else:
            # index after the last valid sample
            for k, v in enumerate(np.flipud(mask[i, :])):
                if v == 1.:
                    end[i] = width - k
                    break
    self.stack_mask = mask
    self.stack_mask_vector = end
    self.beams_masked = surf.beams_range_compr * mask[:surf.data_stack_size, :]
