"""Reference: surface locations (C20, C13, C02, C03)."""
import numpy as np
from dedop.proc.functions import *
from dedop.proc.geo import lla2ecef, ecef2lla, normalize


def target(self):
    return lla2ecef(np.asarray([self.cnf.surface_focusing_lat, self.cnf.surface_focusing_lon,
                                self.cnf.surface_focusing_alt]), self.cst)


def distance(self, pos):
    return np.linalg.norm(target(self) - pos)


def beneath(self, b):
    """surface directly beneath burst b"""
    self.time_surf = b.time_sar_ku
    self.lat_surf = normalize(b.lat_sar_sat, self.cst)
    self.lon_surf = normalize(b.lon_sar_sat, self.cst)
    self.alt_surf = b.alt_sar_sat - b.win_delay_sar_ku * self.cst.c / 2
    p = lla2ecef([self.lat_surf, self.lon_surf, self.alt_surf], self.cst)
    self.x_surf = p[0]
    self.y_surf = p[1]
    self.z_surf = p[2]
    self.x_sat = b.x_sar_sat
    self.y_sat = b.y_sar_sat
    self.z_sat = b.z_sar_sat
    self.lat_sat = b.lat_sar_sat
    self.lon_sat = b.lon_sar_sat
    self.alt_sat = b.alt_sar_sat
    self.x_vel_sat = b.x_vel_sat_sar
    self.y_vel_sat = b.y_vel_sat_sar
    self.z_vel_sat = b.z_vel_sat_sar
    self.alt_rate_sat = b.alt_rate_sat_sar
    self.roll_sat = b.roll_sar
    self.pitch_sat = b.pitch_sar
    self.yaw_sat = b.yaw_sar
    self.win_delay_surf = b.win_delay_sar_ku
    self.prev_tai = b.time_sar_ku
    self.prev_utc_days = b.days
    self.prev_utc_secs = b.seconds
    self.curr_day_length = self.cst.sec_in_day


def off_angle(s, b):
    v = np.matrix([[b.x_sar_surf - s.x_sat], [b.y_sar_surf - s.y_sat], [b.z_sar_surf - s.z_sat]], dtype=np.float64)
    return angle_between(s.surf_sat_vector, v)


def at(alpha, p, q):
    return p + alpha * (q - p)


def between(self, s, p, c):
    """next surface one beam resolution after surface s, between bursts p and c; False if c has not got there"""
    res = s.angular_azimuth_beam_resolution
    now = off_angle(s, c)
    if now < res:
        return False
    before = off_angle(s, p)
    a = (res - before) / (now - before)
    self.time_surf = at(a, p.time_sar_ku, c.time_sar_ku)
    self.x_surf = at(a, p.x_sar_surf, c.x_sar_surf)
    self.y_surf = at(a, p.y_sar_surf, c.y_sar_surf)
    self.z_surf = at(a, p.z_sar_surf, c.z_sar_surf)
    lla = ecef2lla(np.array([self.x_surf, self.y_surf, self.z_surf]), self.cst)
    self.lat_surf = lla[0]
    self.lon_surf = lla[1]
    self.alt_surf = lla[2]
    self.x_sat = at(a, p.x_sar_sat, c.x_sar_sat)
    self.y_sat = at(a, p.y_sar_sat, c.y_sar_sat)
    self.z_sat = at(a, p.z_sar_sat, c.z_sar_sat)
    lla = ecef2lla(np.array([self.x_sat, self.y_sat, self.z_sat]), self.cst)
    self.lat_sat = lla[0]
    self.lon_sat = lla[1]
    self.alt_sat = lla[2]
    self.x_vel_sat = at(a, p.x_vel_sat_sar, c.x_vel_sat_sar)
    self.y_vel_sat = at(a, p.y_vel_sat_sar, c.y_vel_sat_sar)
    self.z_vel_sat = at(a, p.z_vel_sat_sar, c.z_vel_sat_sar)
    self.alt_rate_sat = at(a, p.alt_rate_sat_sar, c.alt_rate_sat_sar)
    self.roll_sat = at(a, p.roll_sar, c.roll_sar)
    self.pitch_sat = at(a, p.pitch_sar, c.pitch_sar)
    self.yaw_sat = at(a, p.yaw_sar, c.yaw_sar)
    self.win_delay_surf = (self.alt_sat - self.alt_surf) * 2 / self.cst.c
    self.prev_tai = p.time_sar_ku
    self.prev_utc_days = p.days
    self.prev_utc_secs = p.seconds
    self.curr_day_length = self.cst.sec_in_day + (c.leap_secs_since_2000 - p.leap_secs_since_2000)
    return True


def focus(self, s, before):
    """move s along the track to the point closest to the focusing target"""
    self.focus_found = True
    s.target_focused = True
    along = np.asmatrix(s.ecef_surf) - np.asmatrix(before.ecef_surf)
    along = along / np.linalg.norm(along)
    rel = target(self) - np.asmatrix(before.ecef_surf)
    cosine = (along * rel.T) / np.linalg.norm(rel)
    move = np.ravel((np.linalg.norm(rel) * cosine) * along)
    dx, dy, dz = move
    x = before.x_surf + dx
    y = before.y_surf + dy
    z = before.z_surf + dz
    s.x_surf = x
    s.y_surf = y
    s.z_surf = z
    lat, lon, alt = np.ravel(ecef2lla(np.asarray([x, y, z]), self.cst))
    s.lat_surf = lat
    s.lon_surf = lon
    s.alt_surf = alt
    s.win_delay_surf = (s.alt_sat - alt) * 2 / self.cst.c


@spec('dedop/proc/sar/algorithms/surface_locations.py:SurfaceLocationAlgorithm.__call__', props='C20 C13 C03 C02',
      pure='lla2ecef ecef2lla normalize angle_between')
def surface_location(self, surfaces, bursts, force_new):
    if force_new or not surfaces:
        self.first_surf = True
        self.new_surf = True
        beneath(self, bursts[-1])
    else:
        self.first_surf = False
        self.new_surf = between(self, surfaces[-1], bursts[-2], bursts[-1])
    if self.cnf.flag_surface_focusing and self.new_surf:
        for s in surfaces:
            if s.focus_target_distance is None:
                s.focus_target_distance = distance(self, s.ecef_surf)
        d = distance(self, np.asarray([self.x_surf, self.y_surf, self.z_surf]))
        if len(surfaces) > 1 and not self.focus_found and d > surfaces[-1].focus_target_distance:
            focus(self, surfaces[-1], surfaces[-2])
    return self.new_surf


@spec('dedop/proc/sar/algorithms/surface_locations.py:SurfaceLocationAlgorithm.get_surface', props='C20 C10 C03 C13',
      pure='lla2ecef')
def get_surface(self):
    d = dict(time_surf=self.time_surf,
             x_surf=self.x_surf, y_surf=self.y_surf, z_surf=self.z_surf,
             lat_surf=self.lat_surf, lon_surf=self.lon_surf, alt_surf=self.alt_surf,
             x_sat=self.x_sat, y_sat=self.y_sat, z_sat=self.z_sat,
             lat_sat=self.lat_sat, lon_sat=self.lon_sat, alt_sat=self.alt_sat,
             x_vel_sat=self.x_vel_sat, y_vel_sat=self.y_vel_sat, z_vel_sat=self.z_vel_sat,
             alt_rate_sat=self.alt_rate_sat,
             roll_sat=self.roll_sat, pitch_sat=self.pitch_sat, yaw_sat=self.yaw_sat,
             win_delay_surf=self.win_delay_surf,
             prev_tai=self.prev_tai, prev_utc_days=self.prev_utc_days, prev_utc_secs=self.prev_utc_secs,
             curr_day_length=self.curr_day_length)
    if self.cnf.flag_surface_focusing:
        d['focus_target_distance'] = distance(self, np.asarray([self.x_surf, self.y_surf, self.z_surf]))
    return d
