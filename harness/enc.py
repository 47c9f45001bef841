"""Encoding of arguments and results for the TLA+ specification.

A double is [hi, lo, e] with value (hi*2^27 + lo) * 2^e, exactly; arrays are
{"sh": shape, "v": [...]} (booleans {"sh", "b"}); library objects are records
with their kind in "k".
"""
import math
import numpy as np

NAN, PINF, NINF = [0, 0, 90000], [0, 0, 90001], [0, 0, 90002]
MASK = (1 << 27) - 1


class Unreadable(Exception):
    """A value that is not of any kind the library documents."""


def dbl(x):
    x = float(x)
    if x != x:
        return NAN
    if x in (math.inf, -math.inf):
        return PINF if x > 0 else NINF
    if x == 0:
        return [0, 0, 0]
    m, e = math.frexp(abs(x))
    i = int(m * 9007199254740992.0)
    hi, lo = i >> 27, i & MASK
    return [hi, lo, e - 53] if x > 0 else [-hi, -lo, e - 53]


def undbl(d):
    if d[2] >= 90000:
        return {90000: math.nan, 90001: math.inf, 90002: -math.inf}[d[2]]
    return math.ldexp(d[0] * 134217728 + d[1], d[2])


def arr(x):
    a = np.asarray(x)
    if a.dtype == bool:
        return {'sh': list(a.shape), 'b': [bool(t) for t in a.ravel()]}
    if a.dtype.kind not in 'iuf':
        raise Unreadable('%s of dtype %s' % (type(x).__name__, a.dtype))
    if a.size > 20000:
        raise Unreadable('array of %d elements' % a.size)
    return {'sh': list(a.shape), 'v': [dbl(t) for t in a.ravel()]}


KINDS = ('GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'FrameE', 'FrameN',
         'FrameL', 'FrameB', 'GeoPath')


def kind(o):
    return type(o).__name__ if type(o).__name__ in KINDS else None


def flag(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    raise Unreadable('flag %r' % (x,))


def obj(o, ref=None):
    """ref(o) gives the handle of an object that is to be referred to."""
    def sub(x):
        h = ref(x) if ref is not None else None
        return {'h': h} if h is not None else obj(x, ref)
    k = kind(o)
    if k is None:
        return {'k': 'other', 'name': type(o).__name__}
    if k == 'FrameE':
        return {'k': k, 'a': arr(o.a), 'f': arr(o.f), 'R': arr(o.R_Ee), 'name': str(o.name)}
    if k == 'GeoPoint':
        return {'k': k, 'lat': arr(o.latitude), 'lon': arr(o.longitude), 'z': arr(o.z),
                'frame': sub(o.frame), 's': flag(o.scalar)}
    if k == 'Nvector':
        return {'k': k, 'normal': arr(o.normal), 'z': arr(o.z), 'frame': sub(o.frame),
                's': flag(o.scalar)}
    if k in ('ECEFvector', 'Pvector'):
        return {'k': k, 'p': arr(o.pvector), 'frame': sub(o.frame), 's': flag(o.scalar)}
    if k == 'FrameN':
        return {'k': k, 'origin': sub(o.nvector)}
    if k == 'FrameL':
        return {'k': k, 'origin': sub(o.nvector), 'wa': arr(o.wander_azimuth)}
    if k == 'FrameB':
        return {'k': k, 'origin': sub(o.nvector), 'yaw': arr(o.yaw), 'pitch': arr(o.pitch),
                'roll': arr(o.roll)}
    if k == 'GeoPath':
        return {'k': k, 'pa': sub(o.point_a), 'pb': sub(o.point_b)}


def value(x, ref=None):
    """Any argument or result."""
    if isinstance(x, (bool, np.bool_)):
        return {'sh': [], 'b': [bool(x)]}
    if kind(x) is not None:
        h = ref(x) if ref is not None else None
        return {'h': h} if h is not None else obj(x, ref)
    if isinstance(x, (int, float, np.ndarray, np.generic, list, tuple)):
        return arr(x)
    return {'k': 'other', 'name': type(x).__name__}
