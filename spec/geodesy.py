"""Reference: geodesy, vectors and times (C19, C07)."""
import datetime as dt
import numbers
import numpy as np
from numpy.linalg import norm
from dedop.util.time import UTC


@spec('dedop/proc/geo/ecef2lla.py:ecef2lla', props='C19')
def to_geodetic(ecef, cst):
    """closed form on the ellipsoid (a, f): latitude, longitude in [0, 2 pi), height"""
    x, y, z = ecef
    a = cst.semi_major_axis
    short = (1 - cst.flat_coeff) * a
    e = np.sqrt(1 - short ** 2 / a ** 2)
    b = np.sqrt(a ** 2 * (1 - e ** 2))
    e2 = np.sqrt((a ** 2 - b ** 2) / b ** 2)
    rho = np.sqrt(x ** 2 + y ** 2)
    t = np.arctan2(a * z, b * rho)
    lat = np.arctan2(z + e2 ** 2 * b * np.sin(t) ** 3, rho - e ** 2 * a * np.cos(t) ** 3)
    n = a / np.sqrt(1 - e ** 2 * np.sin(lat) ** 2)
    alt = rho / np.cos(lat) - n
    lon = np.mod(np.arctan2(y, x), 2 * np.pi)
    if isinstance(alt, numbers.Number):
        if np.abs(x) < 1 and np.abs(y) < 1:
            alt = np.abs(z) - b
    else:
        k = np.logical_and(np.abs(x) < 1, np.abs(y) < 1)
        alt[k] = np.abs(z[k]) - b
    return lat, lon, alt


@spec('dedop/proc/geo/lla2ecef.py:lla2ecef', props='C19 C08')
def to_cartesian(lla, cst, lla_as_degrees=False):
    lat, lon, alt = lla
    if lla_as_degrees:
        lat = np.radians(lat)
        lon = np.radians(lon)
    a = cst.semi_major_axis
    b = cst.semi_minor_axis
    f = (a - b) / a
    e = np.sqrt(f * (2 - f))
    n = a / np.sqrt(1 - (e * np.sin(lat)) ** 2)
    return ((n + alt) * np.cos(lat) * np.cos(lon),
            (n + alt) * np.cos(lat) * np.sin(lon),
            (n * (1 - e ** 2) + alt) * np.sin(lat))


@spec('dedop/proc/geo/normalize.py:normalize', props='C19')
def normalize(rads, cst):
    while rads < -cst.pi:
        rads = rads + 2 * cst.pi
    while rads > cst.pi:
        rads = rads - 2 * cst.pi
    return rads


@spec('dedop/proc/functions/vectors.py:angle_between', props='C19 C21')
def angle_between(vec1, vec2):
    c = np.dot(vec1.flat, vec2.flat) / (norm(vec1) * norm(vec2))
    return np.arccos(min(max(c, -1), 1))


@spec('dedop/util/time.py:iso_format', props='C07')
def iso_format(utc_secs=None):
    if utc_secs is None:
        return dt.datetime.now(tz=UTC).isoformat()
    return (dt.datetime(2000, 1, 1, tzinfo=UTC) + dt.timedelta(seconds=utc_secs)).isoformat()
