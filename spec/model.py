"""Reference: surfaces and bursts (C08, C10, C20, C21, C22)."""
import numpy as np
from collections import OrderedDict
from dedop.model.surface_data import SurfaceType
from dedop.model.l1a_processing_data import PacketPid
from dedop.proc.geo import lla2ecef
from dedop.proc.functions import angle_between

S = 'dedop/model/surface_data.py:SurfaceData.'
L = 'dedop/model/l1a_processing_data.py:L1AProcessingData.'


# ---------------------------------------------------------------- item access

@spec('dedop/model/surface_data.py:SurfaceData.__setitem__', props='C10')
def surf_setitem(self, key, value):
    if not hasattr(self.__class__, key):
        raise KeyError(key)
    self._data[key] = value


@spec('dedop/model/surface_data.py:SurfaceData.__getitem__', props='C10')
def surf_getitem(self, key):
    return self._data[key]


@spec('dedop/model/surface_data.py:SurfaceData.__delitem__', props='C10')
def surf_delitem(self, key):
    del self._data[key]


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.__setitem__', props='C10')
def l1a_setitem(self, key, value):
    if not hasattr(self.__class__, key):
        raise KeyError(key)
    self._data[key] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.__getitem__', props='C10')
def l1a_getitem(self, key):
    return self._data[key]


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.__delitem__', props='C10')
def l1a_delitem(self, key):
    del self._data[key]


# ---------------------------------------------------------------- construction: fresh storage, values under their names

@spec('dedop/model/surface_data.py:SurfaceData.__init__', props='C10 C03', opaque='set_values')
def surf_init(self, cst, chd, surf_num=None, *dicts, **values):
    self._surface_counter = surf_num
    self._data = OrderedDict()
    self._data["surface_type"] = SurfaceType.surface_null
    self._data["stack_all_beams_indices"] = []
    self._data["stack_all_beams_indices_abs"] = []
    self._data["stack_all_bursts"] = []
    for d in dicts:
        self.set_values(**d)
    self.set_values(**values)
    self.cst = cst
    self.chd = chd


@spec('dedop/model/surface_data.py:SurfaceData.set_values', props='C10')
def surf_set_values(self, **values):
    for k, v in values.items():
        self[k] = v


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.__init__', props='C10 C03 C08')
def l1a_init(self, cst, chd, seq_num=None, *dicts, **values):
    self._data = OrderedDict()
    self._counter = seq_num
    self._seq_count_sar = seq_num
    self._beam_angles_trend = None
    self._burst_processed = False
    self._vel_sat_norm = None
    x = values.pop('x_vel_sat_sar', 0)
    y = values.pop('y_vel_sat_sar', 0)
    z = values.pop('z_vel_sat_sar', 0)
    self._vel_sat_sar = np.matrix([[x], [y], [z]], dtype=np.float64)
    self._data['isp_pid'] = PacketPid.null
    for d in dicts:
        self._data.update(d)
    self._data.update(values)
    self.cst = cst
    self.chd = chd


# ---------------------------------------------------------------- composite fields

@spec('dedop/model/surface_data.py:SurfaceData.target_focused', props='C10')
def target_focused(self):
    if 'target_focused' not in self._data:
        self._data['target_focused'] = False
    return self._data['target_focused']


@spec('dedop/model/surface_data.py:SurfaceData.target_focused=', props='C10')
def set_target_focused(self, value):
    self._data['target_focused'] = value


@spec('dedop/model/surface_data.py:SurfaceData.surface_counter', props='C10 C07')
def surface_counter(self):
    return self._surface_counter


@spec('dedop/model/surface_data.py:SurfaceData.ecef_surf', props='C10')
def ecef_surf(self):
    return self.x_surf, self.y_surf, self.z_surf


@spec('dedop/model/surface_data.py:SurfaceData.ecef_surf=', props='C10')
def set_ecef_surf(self, value):
    self.x_surf, self.y_surf, self.z_surf = value


@spec('dedop/model/surface_data.py:SurfaceData.lla_surf', props='C10')
def lla_surf(self):
    return self.lat_surf, self.lon_surf, self.alt_surf


@spec('dedop/model/surface_data.py:SurfaceData.lla_surf=', props='C10')
def set_lla_surf(self, value):
    self.lat_surf, self.lon_surf, self.alt_surf = value


@spec('dedop/model/surface_data.py:SurfaceData.ecef_sat', props='C10')
def ecef_sat(self):
    return self.x_sat, self.y_sat, self.z_sat


@spec('dedop/model/surface_data.py:SurfaceData.ecef_sat=', props='C10')
def set_ecef_sat(self, value):
    self.x_sat, self.y_sat, self.z_sat = value


@spec('dedop/model/surface_data.py:SurfaceData.lla_sat', props='C10')
def lla_sat(self):
    return self.lat_sat, self.lon_sat, self.alt_sat


@spec('dedop/model/surface_data.py:SurfaceData.lla_sat=', props='C10')
def set_lla_sat(self, value):
    self.lat_sat, self.lon_sat, self.alt_sat = value


@spec('dedop/model/surface_data.py:SurfaceData.vel_sat', props='C10')
def vel_sat(self):
    return self.x_vel_sat, self.y_vel_sat, self.z_vel_sat


@spec('dedop/model/surface_data.py:SurfaceData.vel_sat=', props='C10')
def set_vel_sat(self, value):
    self.x_vel_sat, self.y_vel_sat, self.z_vel_sat = value


@spec('dedop/model/surface_data.py:SurfaceData.orientation_sat', props='C10')
def orientation_sat(self):
    return self.roll_sat, self.pitch_sat, self.yaw_sat


@spec('dedop/model/surface_data.py:SurfaceData.orientation_sat=', props='C10')
def set_orientation_sat(self, value):
    self.roll_sat, self.pitch_sat, self.yaw_sat = value


@spec('dedop/model/surface_data.py:SurfaceData.closest_burst', props='C10 C07 C21')
def closest_burst(self):
    return self.stack_bursts[self.closest_burst_index]


@spec('dedop/model/surface_data.py:SurfaceData.gps_time_surf', props='C07')
def gps_time_surf(self):
    """TAI seconds since 2000-01-01 -> GPS seconds since 1980-01-06"""
    return self.time_surf + 7300 * 86400 - 19


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.geodetic_sat', props='C10')
def geodetic_sat(self):
    return np.asmatrix([self.lat_sar_sat, self.lon_sar_sat, self.alt_sar_sat]).T


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.geodetic_sat=', props='C10')
def set_geodetic_sat(self, value):
    self.lat_sar_sat, self.lon_sar_sat, self.alt_sar_sat = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.orientation_sar', props='C10')
def orientation_sar(self):
    return np.asmatrix([self.roll_sar, self.pitch_sar, self.yaw_sar]).T


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.orientation_sar=', props='C10')
def set_orientation_sar(self, value):
    self.roll_sar, self.pitch_sar, self.yaw_sar = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.sar_surf', props='C10')
def sar_surf(self):
    return np.asmatrix([self.x_sar_surf, self.y_sar_surf, self.z_sar_surf]).T


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.sar_surf=', props='C10')
def set_sar_surf(self, value):
    self.x_sar_surf, self.y_sar_surf, self.z_sar_surf = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pos_sar_sat', props='C10')
def pos_sar_sat(self):
    return np.asmatrix([self.x_sar_sat, self.y_sar_sat, self.z_sar_sat]).T


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.pos_sar_sat=', props='C10')
def set_pos_sar_sat(self, value):
    self.x_sar_sat, self.y_sar_sat, self.z_sar_sat = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.x_vel_sat_sar', props='C10')
def x_vel(self):
    return self._vel_sat_sar[0, 0]


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.y_vel_sat_sar', props='C10')
def y_vel(self):
    return self._vel_sat_sar[1, 0]


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.z_vel_sat_sar', props='C10')
def z_vel(self):
    return self._vel_sat_sar[2, 0]


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.x_vel_sat_sar=', props='C10')
def set_x_vel(self, value):
    self._vel_sat_sar[0, 0] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.y_vel_sat_sar=', props='C10')
def set_y_vel(self, value):
    self._vel_sat_sar[1, 0] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.z_vel_sat_sar=', props='C10')
def set_z_vel(self, value):
    self._vel_sat_sar[2, 0] = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.vel_sat_sar', props='C10')
def l1a_vel(self):
    return self._vel_sat_sar


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.vel_sat_sar=', props='C10')
def set_l1a_vel(self, value):
    self._vel_sat_sar[0, 0] = value[0]
    self._vel_sat_sar[1, 0] = value[1]
    self._vel_sat_sar[2, 0] = value[2]


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.seq_count_sar', props='C10')
def seq_count(self):
    return self._seq_count_sar


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.burst_processed', props='C10')
def burst_processed(self):
    return self._burst_processed


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.burst_processed=', props='C10')
def set_burst_processed(self, value):
    self._burst_processed = value


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.counter', props='C10 C07')
def counter(self):
    return self._counter


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.leap_secs_since_2000', props='C07 C08')
def leap_secs(self):
    return self.time_sar_ku - (self.days * self.cst.sec_in_day + self.seconds)


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.vel_sat_sar_norm', props='C10 C22')
def vel_norm(self):
    if self._vel_sat_norm is None:
        self._vel_sat_norm = np.linalg.norm(self._vel_sat_sar)
    return self._vel_sat_norm


# ---------------------------------------------------------------- derived quantities

@spec('dedop/model/surface_data.py:SurfaceData.compute_angular_azimuth_beam_resolution', props='C20 C21')
def beam_resolution(self, pri_sar):
    v = np.array([self.x_vel_sat, self.y_vel_sat, self.z_vel_sat]).T
    self.angular_azimuth_beam_resolution = np.arcsin(
        self.cst.c / (2 * self.chd.freq_ku * np.linalg.norm(v) * self.chd.n_ku_pulses_burst * pri_sar))


@spec('dedop/model/surface_data.py:SurfaceData.compute_surf_sat_vector', props='C20 C23')
def surf_sat_vector(self):
    self.surf_sat_vector = np.asarray(self.ecef_surf, dtype=np.float64) - np.asarray(self.ecef_sat, dtype=np.float64)


@spec('dedop/model/surface_data.py:SurfaceData.add_stack_beam_index', props='C21')
def add_stack_beam_index(self, beam_index, trend, size):
    self.stack_all_beams_indices.append(beam_index)
    n = self.chd.n_ku_pulses_burst
    if trend == 1:
        self.stack_all_beams_indices_abs.append(beam_index + n - size - n // 2)
    else:
        self.stack_all_beams_indices_abs.append(beam_index - n // 2)


@spec('dedop/model/surface_data.py:SurfaceData.add_stack_burst', props='C21')
def add_stack_burst(self, packet):
    self.stack_all_bursts.append(packet)


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.compute_location_sar_surf', props='C08 C20', pure='lla2ecef')
def location_sar_surf(self):
    sat = lla2ecef((self.lat_sar_sat, self.lon_sar_sat, self.alt_sar_sat), self.cst)
    self.x_sar_sat, self.y_sar_sat, self.z_sar_sat = sat
    surf = lla2ecef((self.lat_sar_sat, self.lon_sar_sat, self.alt_sar_sat - self.win_delay_sar_ku * self.cst.c / 2), self.cst)
    self.x_sar_surf, self.y_sar_surf, self.z_sar_surf = surf


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.calculate_beam_angles_trend', props='C21 C22')
def beam_angles_trend(self, prev_size, prev_trend):
    size = len(self.beam_angles_list)
    if size == self.chd.n_ku_pulses_burst:
        trend = 0
    elif prev_size == -1 or size > prev_size:
        trend = 1
    elif size < prev_size:
        trend = -1
    else:
        trend = prev_trend
    self.beam_angles_trend = trend


@spec('dedop/model/l1a_processing_data.py:L1AProcessingData.compute_doppler_angle', props='C08 C23',
      pure='lla2ecef angle_between')
def doppler_angle(self):
    below = np.array([self.lat_sar_sat, self.lon_sar_sat, self.alt_sar_sat - self.chd.mean_sat_alt])
    n = np.asmatrix(np.asmatrix(lla2ecef(below, self.cst)).T - self.pos_sar_sat)
    v = self.vel_sat_sar
    m = np.cross(np.cross(n.T, v.T), n.T)
    a = angle_between(v, m)
    self.doppler_angle_sar_sat = -a if a < self.cst.pi / 2 else a
