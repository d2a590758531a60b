"""Reference: stack gathering (C21, C03)."""
import numpy as np
from dedop.model.l1a_processing_data import PacketPid
from dedop.model.surface_data import SurfaceType


@spec('dedop/proc/sar/algorithms/stack_gathering.py:StackGatheringAlgorithm.__call__', props='C21 C03')
def stack_gathering(self, surf):
    looks = self.n_looks_stack
    total = len(surf.stack_all_bursts)
    first = 0
    count = total
    if total >= looks:
        # keep a contiguous run that starts at the first of the looks with the smallest look angle
        count = looks
        angles = np.empty(total, dtype=np.float64)
        for i in range(total):
            b = surf.stack_all_bursts[i]
            angles[i] = self.cst.pi / 2 + b.doppler_angle_sar_sat - b.beam_angles_list[surf.stack_all_beams_indices[i]]
        first = np.min(np.argsort(np.abs(angles))[:looks])
    self.data_stack_size = count
    bursts = np.zeros(looks, dtype=object)
    beams = np.zeros((looks, self.chd.n_samples_sar), dtype=np.complex128)
    beam_angle = np.zeros(looks, dtype=np.float64)
    t0 = np.zeros(looks, dtype=np.float64)
    doppler = np.zeros(looks, dtype=np.float64)
    look = np.zeros(looks, dtype=np.float64)
    pointing = np.zeros(looks, dtype=np.float64)
    index = -128 * np.ones(looks, dtype=np.int32)
    counter = np.zeros(looks, dtype=np.int32)
    self.closest_burst_index = 0
    best = None
    rmc = False
    for i in range(count):
        k = i + first
        b = surf.stack_all_bursts[k]
        angle = b.beam_angles_list[surf.stack_all_beams_indices[k]]
        beam = b.beams_focused[surf.stack_all_beams_indices[k], :]
        bursts[i] = b
        beams[i, :len(beam)] = beam
        beam_angle[i] = angle
        t0[i] = b.t0_sar
        doppler[i] = b.doppler_angle_sar_sat
        look[i] = self.cst.pi / 2 + b.doppler_angle_sar_sat - angle
        pointing[i] = look[i] - b.pitch_sar
        index[i] = surf.stack_all_beams_indices_abs[k]
        counter[i] = b.seq_count_sar
        if not rmc and b.isp_pid == PacketPid.echo_rmc:
            rmc = True
        off = abs(angle - self.cst.pi / 2)
        if best is None or off < best:
            best = off
            self.closest_burst_index = i
    self.stack_bursts = bursts
    self.beams_surf = beams
    self.beam_angles_surf = beam_angle
    self.t0_surf = t0
    self.doppler_angles_surf = doppler
    self.look_angles_surf = look
    self.pointing_angles_surf = pointing
    self.look_index_surf = index
    self.look_counter_surf = counter
    self.surface_type = SurfaceType.surface_rmc if rmc else SurfaceType.surface_raw
