"""Concrete positions for the position and relation classes of Scenarios.tla."""
import math
import zlib
import numpy as np

PI = math.pi


def one_of(rng, cls):
    """of a mixture, the elements of an array are of different classes"""
    return rng.choice(('gen', 'gen', 'np', 'sp', 'nearp', 'eq', 'dl', 'lon90', 'origin')) if cls == 'mix' else cls


def latlon(rng, cls):
    """latitude, longitude (radians) of a position of the class"""
    cls = one_of(rng, cls)
    lat = math.asin(rng.uniform(-1, 1)) * 0.999
    lon = rng.uniform(-PI, PI)
    sg = rng.choice((-1, 1))
    if cls == 'np':
        return PI / 2, rng.choice((lon, 0.0))
    if cls == 'sp':
        return -PI / 2, rng.choice((lon, 0.0))
    if cls == 'nearp':
        return sg * (PI / 2 - 10 ** rng.choice((rng.uniform(-12, -1), rng.uniform(-17, -10)))), lon
    if cls == 'eq':
        return rng.choice((0.0, 0.0, sg * 10 ** rng.uniform(-15, -3))), lon
    if cls == 'dl':
        return lat, sg * rng.choice((PI, PI, PI - 10 ** rng.uniform(-12, -2)))
    if cls == 'lon90':
        return lat, sg * rng.choice((PI / 2, PI / 2, PI / 2 + 10 ** rng.uniform(-12, -2)))
    if cls == 'origin':
        return rng.choice((0.0, sg * 10 ** rng.uniform(-12, -4))), rng.choice((0.0, 10 ** rng.uniform(-12, -4)))
    return lat, lon


def nvec(lat, lon):
    return np.array([math.sin(lat), math.sin(lon) * math.cos(lat), -math.cos(lon) * math.cos(lat)])


def normal(rng, cls):
    """unit n-vector (north-first axes); exact at the special places"""
    cls = one_of(rng, cls)
    if cls == 'np':
        return np.array([1.0, 0.0, 0.0])
    if cls == 'sp':
        return np.array([-1.0, 0.0, 0.0])
    lat, lon = latlon(rng, cls)
    n = nvec(lat, lon)
    if cls == 'eq' and lat == 0:
        n[0] = 0.0
    if cls == 'dl' and abs(lon) == PI:
        n[1] = rng.choice((0.0, -0.0, 0.0))
    if cls == 'lon90' and abs(lon) == PI / 2:
        n[2] = 0.0
    return n


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / math.sqrt(float(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]))


def tangent(rng, n):
    """random unit vector orthogonal to n"""
    while True:
        t = np.array([rng.gauss(0, 1) for _ in range(3)])
        t = t - n * float(np.dot(n, t))
        s = float(np.linalg.norm(t))
        if s > 0.1:
            t = t / s
            t = t - n * float(np.dot(n, t))
            return unit(t)


def axis_tangent(rng, n):
    """orthogonal to n and aligned with an axis where possible (meridian, parallel)"""
    t = np.cross(rng.choice((np.array([1.0, 0, 0]), np.array([0, 1.0, 0]), np.array([0, 0, 1.0]))), n)
    s = float(np.linalg.norm(t))
    return unit(t) if s > 0.1 else tangent(rng, n)


def angle(rng, rel):
    return {'close': lambda: 10 ** rng.uniform(-12, -8), 'm': lambda: 10 ** rng.uniform(-8, -6),
            'km': lambda: 10 ** rng.uniform(-5, -3), 'deg': lambda: rng.uniform(0.01, 0.8),
            'quarter': lambda: PI / 2, 'far': lambda: rng.uniform(1.7, 3.0),
            'nearanti': lambda: PI - 10 ** rng.uniform(-7, -1.2)}[rel]()


def move(n, t, th):
    return unit(n * math.cos(th) + t * math.sin(th))


def rel_of(rng, rel):
    if rel == 'mix':
        return rng.choice(('deg', 'same', 'close', 'm', 'km', 'quarter', 'far', 'nearanti', 'anti', 'meridian'))
    return rel


def related(rng, n, rel):
    """a position in the given relation to n"""
    rel = rel_of(rng, rel)
    if rel == 'same':
        return n.copy()
    if rel == 'anti':
        return -n
    if rel == 'ulp':
        m = n.copy()
        i = rng.randrange(3)
        m[i] = np.nextafter(m[i], rng.choice((-2.0, 2.0)))
        return m
    if rel == 'meridian':       # same longitude
        t = np.cross(np.cross(n, [1.0, 0, 0]), n)
        s = float(np.linalg.norm(t))
        t = unit(t) if s > 1e-3 else tangent(rng, n)
        return move(n, t, rng.choice((-1, 1)) * rng.uniform(0.01, 1.4))
    t = tangent(rng, n) if rng.random() < 0.7 else axis_tangent(rng, n)
    if rel == 'quarter':
        return t
    return move(n, t, angle(rng, rel))


def to_latlon(n):
    return math.atan2(n[0], math.hypot(n[1], n[2])), math.atan2(n[1] + 0.0, -n[2] + 0.0)


def to_e(n):
    """north-first coordinates -> axes 'e' of the library"""
    return np.array([-n[2], n[1], n[0]]) + 0.0


def from_e(n):
    return np.array([n[2], n[1], -n[0]]) + 0.0


R_e = np.array([[0, 0, 1.0], [0, 1, 0], [-1, 0, 0]])
R_E = np.eye(3)


def dec(n, ax):
    """decompose in the chosen axes"""
    return np.array(n) if ax == 'E' else to_e(n)


ELL = {'wgs84': (6378137.0, 1 / 298.257223563), 'sphere': (6371009.0, 0.0),
       'prolate': (6378137.0, -1 / 100.0), 'oblate': (6378137.0, 1 / 50.0),
       'unit': (1.0, 1 / 200.0), 'moon': (1738100.0, 0.0012)}


SLIGHT = (2e-5, -3e-7, 1e-9, -1e-4, 3e-12, 4e-8, -5e-10)


def ell(c):
    """(a, f) of a scenario; slight flattenings differ from scenario to scenario"""
    e = c.get('ell', 'dflt')
    if e == 'slight':
        key = repr(sorted((k, v) for k, v in c.items() if k[0] != '_'))
        return 6371000.0, SLIGHT[zlib.crc32(key.encode()) % len(SLIGHT)]
    return ELL['wgs84' if e == 'dflt' else e]


def fwd(n, z, a, f):
    """ECEF position (north-first), plain floats; used to make test points only"""
    b = a * (1 - f)
    den = math.sqrt(n[0] ** 2 + (n[1] ** 2 + n[2] ** 2) / (1 - f) ** 2)
    s = b / den
    return np.array([s * n[0] - z * n[0], s / (1 - f) ** 2 * n[1] - z * n[1], s / (1 - f) ** 2 * n[2] - z * n[2]])


def inv(p, a, f):
    """latitude, longitude, depth of an ECEF position (north-first)"""
    e2 = f * (2 - f)
    rho = math.hypot(p[1], p[2])
    s = p[0] / math.hypot(p[0], rho)
    for _ in range(60):
        n = a / math.sqrt(1 - e2 * s * s)
        y = p[0] + e2 * n * s
        s, o = y / math.hypot(y, rho), s
        if s == o:
            break
    lat = math.atan2(p[0] + e2 * a / math.sqrt(1 - e2 * s * s) * s, rho)
    h = rho * math.cos(lat) + p[0] * math.sin(lat) - a * math.sqrt(1 - e2 * math.sin(lat) ** 2)
    return lat, math.atan2(p[1] + 0.0, -p[2] + 0.0), -h
