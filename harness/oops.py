"""The object-oriented interface: how to make objects for a scenario class and
how to call the methods.

A scenario is first made abstractly (positions as normals and depths), then
built with the kinds, axes and units it asks for, so that the same scenario
can be built in another way (a twin).
"""
import math
import numpy as np
import nvector as nv
from nvector import objects
from geographiclib.geodesic import Geodesic
import geo
from geo import PI
from fops import (OPS, Op, kws, sizes, count, nums, depth, ang, wander, third, crossing, path_of, times,
                  series_args, SER, ser, spell, canon, ELLNAMES, UNKNOWN, rotmat)

KIND = {'G': 'GeoPoint', 'N': 'Nvector', 'E': 'ECEFvector'}


def ellipsoid(c):
    return geo.ell(c)


def frame(c, how='same'):
    """an Earth frame; how: same class, or a different one in a, f or axes"""
    ell, ax = c.get('ell', 'dflt'), c.get('ax', 'e')
    ax2 = ax if ax in ('e', 'E') else 'e'
    if how == 'axes':
        ax2 = 'E' if ax2 == 'e' else 'e'
    if ell == 'dflt' and how in ('same', 'equal', 'axes'):
        return nv.FrameE() if ax == 'dflt' and how != 'axes' else nv.FrameE(axes=ax2)
    a, f = ellipsoid(c)
    if how == 'a':
        a = a + (1.0 if a > 100 else 1e-6)
    elif how == 'f':
        f = f + 1e-9
    elif how == 'neara':                   # differences just above the tolerance of the equality
        a = a * (1 + 1e-11)
    elif how == 'nearf':
        f = f + 3e-13 * max(1, abs(f) * 20)
    elif how == 'name':
        return nv.FrameE(name='GRS80', axes=ax2)
    return nv.FrameE(a=a, f=f, axes=ax2)


def axis_of(fr):
    return 'E' if abs(fr.R_Ee[0][0]) > 0.5 else 'e'


def point(k, pts, fr, zform='auto', vec1=False, ln=None):
    """object of kind k at [(normal, z)] in frame fr; ln: lengths of the n-vectors"""
    n = len(pts)
    z = [p[1] for p in pts]
    if n == 1 and not vec1:
        z = z[0]
    elif zform == 'one' and len(set(z)) == 1:
        z = z[0]
    else:
        z = np.array(z)
    if k == 'G':
        ll = [p[2] if len(p) > 2 and p[2] is not None else geo.to_latlon(p[0]) for p in pts]
        if n == 1 and not vec1:
            return fr.GeoPoint(ll[0][0], ll[0][1], z)
        return fr.GeoPoint(np.array([x[0] for x in ll]), np.array([x[1] for x in ll]), z)
    m = np.array([geo.dec(p[0], axis_of(fr)) for p in pts]).T.copy()
    if k == 'N':
        return fr.Nvector(m if ln is None else m * np.array(ln[:n]), z)
    m = np.array([geo.dec(geo.fwd(p[0], p[1], fr.a, fr.f), axis_of(fr)) for p in pts]).T.copy()
    return fr.ECEFvector(m, scalar=False) if n == 1 and vec1 else fr.ECEFvector(m)


def lengths(rng, c, m):
    return [rng.uniform(0.92, 1.08) for _ in range(m)] if c.get('len') == 'scaled' else None


def apt(rng, c, pos=None):
    """abstract point: normal, depth, exact latitude/longitude"""
    cls = geo.one_of(rng, pos or c['pos'])
    a = ellipsoid(c)[0]
    d = c.get('dep', 'zero')
    z = depth(rng, 'zero' if d in ('none',) else 'small' if d in ('one', 'vecz') else d, a)
    if rng.random() < 0.5 and cls not in ('np', 'sp'):
        ll = geo.latlon(rng, cls)
        return (geo.nvec(*ll), z, ll)
    return (geo.normal(rng, cls), z, None)


def rel_pt(rng, c, p, rel=None):
    a = ellipsoid(c)[0]
    d = c.get('dep', 'zero')
    z = p[1] if d in ('none', 'zero', 'one', 'same', 'vecz') else depth(rng, d, a)
    r = geo.rel_of(rng, rel or c['rel'])
    if r == 'same':
        return (p[0].copy(), z, p[2])
    return (geo.related(rng, p[0], r), z, None)


def turn(p, dlon):
    """the abstract point turned about the Earth axis; its longitude goes on beyond half a turn"""
    if p[2] is not None:
        ll = (p[2][0], p[2][1] + dlon)
        return (geo.nvec(*ll), p[1], ll)
    x, y, z = p[0]
    cd, sd = math.cos(dlon), math.sin(dlon)
    # east = y, origin = -z
    return (np.array([x, cd * y - sd * z, sd * y + cd * z]), p[1], None)


OTHER = {'G': 'N', 'N': 'E', 'E': 'G'}


class OOp(Op):
    """abs(rng, c) -> abstract scenario; build(g, c) -> arguments"""
    def __init__(self, name, fields, call, abs_, build, roles=None, twins=('axes', 'kind', 'turn'),
                 elementwise=True, enc=None):
        Op.__init__(self, name, roles or {}, fields, call, None, axes=False, elementwise=elementwise)
        self.abs, self.build, self.twins, self.enc = abs_, build, twins, enc


def reg(name, fields, call, abs_, build, **kw):
    OPS[name] = OOp(name, fields, call, abs_, build, **kw)


# ------------------------------------------------------------- slicing objects
def slice_obj(o, i):
    k = type(o).__name__

    def el(x):
        return x if np.ndim(x) == 0 else (np.asarray(x).ravel()[0 if np.size(x) == 1 else i])

    def co(m):
        m = np.asarray(m)
        return m[:, :1].copy() if m.shape[1] == 1 else m[:, i:i + 1].copy()
    if k == 'GeoPoint':
        return nv.GeoPoint(el(o.latitude), el(o.longitude), el(o.z), o.frame)
    if k == 'Nvector':
        return nv.Nvector(co(o.normal), el(o.z), o.frame)
    if k == 'ECEFvector':
        return nv.ECEFvector(co(o.pvector), o.frame)
    if k == 'Pvector':
        return nv.Pvector(co(o.pvector), slice_obj(o.frame, i))
    if k == 'FrameN':
        return nv.FrameN(slice_obj(o.nvector, i))
    if k == 'FrameL':
        return nv.FrameL(slice_obj(o.nvector, i), el(o.wander_azimuth))
    if k == 'FrameB':
        return nv.FrameB(slice_obj(o.nvector, i), el(o.yaw), el(o.pitch), el(o.roll))
    if k == 'GeoPath':
        return nv.GeoPath(slice_obj(o.point_a, i), slice_obj(o.point_b, i))
    return o


def obj_len(o):
    k = type(o).__name__
    if k == 'GeoPoint':
        return max(np.size(o.latitude), np.size(o.longitude), np.size(o.z))
    if k == 'Nvector':
        return max(np.shape(o.normal)[1], np.size(o.z))
    if k == 'ECEFvector':
        return np.shape(o.pvector)[1]
    if k == 'Pvector':
        return max(np.shape(o.pvector)[1], obj_len(o.frame))
    if k == 'FrameN':
        return obj_len(o.nvector)
    if k == 'FrameL':
        return max(obj_len(o.nvector), np.size(o.wander_azimuth))
    if k == 'FrameB':
        return max(obj_len(o.nvector), np.size(o.yaw), np.size(o.pitch), np.size(o.roll))
    if k == 'GeoPath':
        return max(obj_len(o.point_a), obj_len(o.point_b))
    return 1


# ------------------------------------------------------------------ conversions
def abs_one(rng, c):
    g = {'A': [apt(rng, c) for _ in range(count(c))]}
    g['ln'] = lengths(rng, c, len(g['A']))
    return g


def zform(c):
    return 'one' if c.get('dep') == 'one' else 'auto'


def b_self(g, c):
    return {'self': point(c['k'], g['A'], frame(c), zform(c), c.get('form') == 'vec1', g.get('ln'))}


TO = {'G': 'to_geo_point', 'N': 'to_nvector', 'E': 'to_ecef_vector'}


def b_convert(g, c):
    if c['k'] == 'P':
        a = b_pvec(g, c)
    else:
        a = b_self(g, c)
    a['to'] = KIND[c['to']]
    return a


def abs_convert(rng, c):
    if c['k'] == 'P':
        g = abs_frame(rng, dict(c, lk=rng.choice('NLB')))
        # an E-vector pointing from the Earth's centre to a position, in the local frame
        g['v'] = [geo.fwd(*apt(rng, c)[:2], *ellipsoid(c)) for _ in range(count(c))]
        g['lk'] = rng.choice('NLB')
        return g
    return abs_one(rng, c)


def call_convert(a):
    m = {'GeoPoint': 'to_geo_point', 'Nvector': 'to_nvector', 'ECEFvector': 'to_ecef_vector'}[a['to']]
    return getattr(a['self'], m)()


reg('o.convert', None, call_convert, abs_convert, b_convert, twins=('axes', 'turn'))


# ---------------------------------------------------------------- local frames
def abs_frame(rng, c):
    n = count(c)
    no, na = {'nn': (n, n), '1n': (1, n), 'n1': (n, 1)}[c.get('bc', 'nn')]
    return {'A': [apt(rng, c) for _ in range(no)], 'ln': lengths(rng, c, no),
            'wa': [wander(rng, c) for _ in range(na)],
            'ypr': [[ang(rng) for _ in range(na)] for _ in range(3)]}


def one_or(v, vec=False):
    return v[0] if len(v) == 1 and not vec else np.array(v)


def b_lframe(g, c, fr=None):
    fr = fr or frame(c)
    A = point(c.get('k', 'N') if c.get('k', 'N') in KIND else 'N', g['A'], fr, zform(c), ln=g.get('ln'))
    lk = g.get('lk', c.get('lk'))
    if lk == 'N':
        return nv.FrameN(A)
    if lk == 'L':
        return nv.FrameL(A, wander_azimuth=one_or(g['wa']))
    y, p, r = [one_or(v) for v in g['ypr']]
    if c.get('deg') == 'yes':
        y, p, r = [np.degrees(v) for v in (y, p, r)]
        return nv.FrameB(A, yaw=y, pitch=p, roll=r, degrees=True)
    return nv.FrameB(A, y, p, r)


reg('o.R_EN', None, lambda a: a['self'].R_EN, abs_frame, lambda g, c: {'self': b_lframe(g, c)})


def abs_vecs(rng, c):
    n = count(c)
    g = abs_frame(rng, c)
    nv_ = {'nn': n, '1n': n, 'n1': 1}[c.get('bc', 'nn')]
    out = []
    for i in range(nv_):
        A = g['A'][i % len(g['A'])]
        s = c.get('vec', 'local')
        t = geo.unit(np.array([rng.gauss(0, 1) for _ in range(3)]))
        if s == 'zero':
            v = np.zeros(3)
        elif s == 'pos':
            v = geo.fwd(*apt(rng, c)[:2], *ellipsoid(c))
        elif s == 'up':
            v = A[0] * rng.choice((-1, 1)) * rng.uniform(1, 1000)
        elif s == 'tiny':
            v = t * 10 ** rng.uniform(-9, -3)
        else:
            v = t * 10 ** rng.uniform(-1, 5)
        out.append(v)
    g['v'] = out
    return g


def b_change(g, c):
    fr = frame(c)
    other = frame(c, c.get('fr2', 'same'))
    p = np.array([geo.dec(v, axis_of(fr)) for v in g['v']]).T.copy()
    sc = {'scalar': False} if c.get('form') == 'vec1' else {}
    return {'self': fr.ECEFvector(p, **sc), 'frame': b_lframe(g, c, other)}


reg('o.change_frame', None, lambda a: a['self'].change_frame(a['frame']), abs_vecs, b_change)


def b_pvec(g, c):
    lf = b_lframe(g, dict(c, k='N'))
    p = np.array(g['v']).T.copy()
    if c.get('via') == 'Pvector':
        return {'self': nv.Pvector(p, lf)}
    return {'self': lf.Pvector(p)}


reg('o.to_ecef_local', None, lambda a: a['self'].to_ecef_vector(), abs_vecs, b_pvec)


def abs_polar(rng, c):
    n = count(c)

    def one():
        t = c['dir']
        s = {'zero': 0.0}.get(t, 10 ** rng.uniform(-6, 7))
        if t == 'x':
            v = [1, 0, 0]
        elif t == 'negx':
            v = [-1, 0.0, 0]
        elif t == 'y':
            v = [0, rng.choice((-1, 1)), 0]
        elif t == 'z':
            v = [0, 0, rng.choice((-1, 1))]
        elif t == 'nearz':
            e = 10 ** rng.uniform(-9, -2)
            v = [e * rng.uniform(-1, 1), e * rng.uniform(-1, 1), rng.choice((-1, 1))]
        else:
            v = [rng.gauss(0, 1) for _ in range(3)]
        return np.array(v, dtype=float) * s
    g = abs_frame(rng, dict(c, lk='N', pos='gen', n='1'))
    g['v'] = [one() for _ in range(n)]
    return g


def b_polar(g, c):
    p = np.array(g['v']).T.copy()
    if c['k'] == 'P':
        lf = b_lframe(g, {'lk': c.get('lk', 'N'), 'k': 'N'})
        return {'self': nv.Pvector(p, lf, scalar=False) if c.get('form') == 'vec1' else lf.Pvector(p)}
    sc = {'scalar': False} if c.get('form') == 'vec1' else {}
    return {'self': frame(c).ECEFvector(p, **sc)}


def call_polar(a):
    o = a['self']
    return {'length': o.length, 'az': o.azimuth, 'az_deg': o.azimuth_deg, 'el': o.elevation,
            'el_deg': o.elevation_deg}


reg('o.polar', 'rec', call_polar, abs_polar, b_polar, twins=())


def named(a, c):
    """asks for the deprecated name of the operation"""
    if c.get('nm') == 'alias':
        a['_nm'] = 'alias'
    return a


# ----------------------------------------------------------------------- deltas
def shared(rng, P):
    """elements that share latitude, longitude, depth or all with the first or the one before"""
    what, first, some = rng.choice(('lat', 'lon', 'z', 'all')), rng.random() < 0.5, rng.random() < 0.5
    for i in range(1, len(P)):
        if some and rng.random() < 0.5:
            continue
        q, (n, z, ll) = P[0] if first else P[i - 1], P[i]
        if what == 'all':
            P[i] = q
        elif what == 'z':
            P[i] = (n, q[1], ll)
        else:
            x, y = ll or geo.to_latlon(n), q[2] or geo.to_latlon(q[0])
            x = (y[0], x[1]) if what == 'lat' else (x[0], y[1])
            P[i] = (geo.nvec(*x), z, x)


def abs_pair(rng, c):
    na, nb = sizes(c, 2)
    A = [apt(rng, c) for _ in range(na)]
    B = [rel_pt(rng, c, A[i % na]) for i in range(nb)]
    if c.get('rel') == 'far' and rng.random() < 0.3:
        shared(rng, A), shared(rng, B)
    return {'A': A, 'B': B, 'wa': [wander(rng, c) for _ in range(rng.choice((1, max(na, nb))))],
            'ln': lengths(rng, c, max(na, nb)), 'v1': rng.choice(((True, True), (True, False), (False, True)))}


def b_pair(g, c):
    fr = frame(c)
    fr2 = fr if c.get('fr2', 'same') == 'same' else frame(c, c['fr2'])
    if c.get('order') == 'swap':
        fr, fr2 = fr2, fr
    v1 = g['v1'] if c.get('form') == 'vec1' else (False, False)
    return (point(c['ka'], g['A'], fr, zform(c), v1[0], g.get('ln')), point(c['kb'], g['B'], fr2, zform(c), v1[1], g.get('ln')))


def b_delta(g, c):
    A, B = b_pair(g, c)
    return {'x': A, 'y': B}


def b_delta_local(g, c):
    a = b_delta(g, c)
    a['k'] = 'FrameL' if c['lk'] == 'L' else 'FrameN'
    a['_via'] = c['lk']
    if c['lk'] == 'L' and c.get('wa') != 'none':
        a['wa'] = one_or(g['wa'])
    return a


def call_delta_local(a):
    if a['_via'] == 'L':
        return nv.delta_L(a['x'], a['y'], **kws(a, {'wa': 'wander_azimuth'}))
    if a['_via'] == 'to':
        return a['x'].delta_to(a['y'])
    return nv.delta_N(a['x'], a['y'])


reg('o.delta_E', None, lambda a: (nv.diff_positions if a.get('_nm') else nv.delta_E)(a['x'], a['y']), abs_pair,
    lambda g, c: named(b_delta(g, c), c))
reg('o.delta_local', None, call_delta_local, abs_pair, b_delta_local, roles={'wa': 'num'})


# ----------------------------------------------------------------- constructors
def abs_FrameE(rng, c):
    a = {}
    how = c['how']
    if how in ('af', 'afname'):
        a['a'], a['f'] = rng.choice([geo.ELL[k] for k in geo.ELL])
    if how in ('name', 'afname'):
        i = rng.randrange(1, 20)
        a['_name'] = a['name'] = spell(rng, rng.choice(ELLNAMES[i]), rng.choice(('plain', 'lower', 'upper', 'nospace')))
        a['key'] = canon(a['name'])
    if how == 'unknown':
        a['_name'] = a['name'] = rng.choice(UNKNOWN)
        a['key'] = canon(a['name'])
    if c['axes'] != 'dflt':
        a['axes'] = c['axes']
    return a


reg('o.FrameE', None, lambda a: nv.FrameE(**kws(a, {'a': 'a', 'f': 'f', '_name': 'name', 'axes': 'axes'})),
    abs_FrameE, lambda g, c: dict(g), twins=(), elementwise=False)


def abs_ctor(rng, c):
    na, nb = sizes(c, 2)
    P = [apt(rng, c) for _ in range(max(na, nb))]
    return {'A': P, 'na': na, 'nb': nb, 'wa': [wander(rng, c) for _ in range(nb)],
            'ypr': [[wander(rng, c) for _ in range(nb)] for _ in range(3)]}


def frame_via(c):
    return nv.FrameE() if c.get('via') == 'bare' else frame(c)


def made(a, k, args, **kw):
    """a position from its frame or its class; 'given': the frame's method is given another frame, which
    does not count; 'bare': without frame, in the default one"""
    v = a['_via']
    if v == 'given':
        return getattr(a['frame'], k)(*args, frame=nv.FrameE(a=6.4e6, f=0.01, axes='E'), **kw)
    if v == 'frame':
        return getattr(a['frame'], k)(*args, **kw)
    return getattr(nv, k)(*args, **kw) if v == 'bare' else getattr(nv, k)(*args, frame=a['frame'], **kw)


def b_GeoPoint(g, c):
    ll = [p[2] or geo.to_latlon(p[0]) for p in g['A']]
    la, lo = [x[0] for x in ll][:g['na']], [x[1] for x in ll][:g['nb']]
    if c.get('deg') == 'yes':
        la, lo = [math.degrees(x) for x in la], [math.degrees(x) for x in lo]
    if c.get('form') == 'int':
        la, lo = [int(x) for x in la], [int(x) for x in lo]
    a = {'lat': one_or(la), 'lon': one_or(lo), 'frame': frame_via(c)}
    if c.get('form') == 'list':
        a['lat'] = la if len(la) > 1 else la[0]
    if c.get('dep') != 'none':
        a['z'] = g['A'][0][1] if c.get('dep') in ('one', 'zero') else one_or([p[1] for p in g['A']])
    if c.get('deg') != 'dflt':
        a['degrees'] = c['deg'] == 'yes'
    a['_via'] = c.get('via', 'frame')
    return a


def call_GeoPoint(a):
    k = kws(a, {'z': 'z', 'degrees': 'degrees'})
    return made(a, 'GeoPoint', (), latitude=a['lat'], longitude=a['lon'], **k) if a['_via'] == 'class' else \
        made(a, 'GeoPoint', (a['lat'], a['lon']), **k)


reg('o.GeoPoint', None, call_GeoPoint, abs_ctor, b_GeoPoint, twins=())


def b_Nvector(g, c):
    fr = frame_via(c)
    a = {'normal': np.array([geo.dec(p[0], axis_of(fr)) for p in g['A'][:g['na']]]).T.copy(), 'frame': fr,
         '_via': c.get('via', 'frame')}
    if c.get('dep') != 'none':
        z = [p[1] for p in g['A'][:g['nb']]]
        a['z'] = z[0] if c.get('dep') in ('one', 'zero') else one_or(z)
    return a


def call_Nvector(a):
    k = kws(a, {'z': 'z'})
    return made(a, 'Nvector', (a['normal'],), **k)


reg('o.Nvector', None, call_Nvector, abs_ctor, b_Nvector, twins=())


def b_ECEF(g, c):
    fr = frame_via(c)
    return {'p': np.array([geo.dec(geo.fwd(p[0], p[1], fr.a, fr.f), axis_of(fr)) for p in g['A']]).T.copy(),
            'frame': fr, '_via': c.get('via', 'frame'), **flag(c)}


def flag(c):
    return {'scalar': c['sc'] == 'yes'} if c.get('sc', 'dflt') != 'dflt' else {}


SC = {'scalar': 'scalar'}
reg('o.ECEFvector', None, lambda a: made(a, 'ECEFvector', (a['p'],), **kws(a, SC)), abs_ctor, b_ECEF, twins=())


def b_Pctor(g, c):
    lf = b_lframe(dict(g, A=g['A'][:1]), dict(c, k='N'))
    return {'p': np.array([p[0] * 100.0 for p in g['A']]).T.copy(), 'frame': lf, '_via': c.get('via', 'frame'), **flag(c)}


reg('o.Pvector', None, lambda a: a['frame'].Pvector(a['p']) if a['_via'] == 'frame' and 'scalar' not in a else
    nv.Pvector(a['p'], a['frame'], **kws(a, SC)),
    abs_ctor, b_Pctor, twins=())


def b_x(g, c):
    return {'x': point(c['k'], g['A'][:g['na']], frame(c), zform(c))}


reg('o.FrameN', None, lambda a: nv.FrameN(a['x']), abs_ctor, b_x, twins=('kind',))


def b_FrameL(g, c):
    a = b_x(g, c)
    if c.get('wa') != 'none':
        a['wa'] = one_or(g['wa'])
    return a


reg('o.FrameL', None, lambda a: nv.FrameL(a['x'], **kws(a, {'wa': 'wander_azimuth'})), abs_ctor, b_FrameL, twins=('kind',))


def b_FrameB(g, c):
    a = b_x(g, c)
    y = [one_or(v) for v in g['ypr']]
    for k, v in zip(('yaw', 'pitch', 'roll'), y):
        if c.get('wa') != 'none' or k == 'roll':
            a[k] = np.degrees(v) if c.get('deg') == 'yes' else v
    if c.get('deg') != 'dflt':
        a['degrees'] = c['deg'] == 'yes'
    return a


reg('o.FrameB', None, lambda a: nv.FrameB(a['x'], **kws(a, {k: k for k in ('yaw', 'pitch', 'roll', 'degrees')})),
    abs_ctor, b_FrameB, twins=('kind',))


def call_latlon(a):
    o = a['self']
    ll, lld = o.latlon, o.latlon_deg
    return {'lat_deg': o.latitude_deg, 'lon_deg': o.longitude_deg, 'll_lat': ll[0], 'll_lon': ll[1], 'll_z': ll[2],
            'lld_lat': lld[0], 'lld_lon': lld[1], 'lld_z': lld[2]}


reg('o.latlon', 'rec', call_latlon, abs_one, lambda g, c: b_self(g, dict(c, k='G')), twins=())


# --------------------------------------------------------- direct and inverse
def worded(a, c):
    """names the method"""
    if c.get('meth', 'dflt') != 'dflt':
        a['_m'] = c['meth']
    return a


def dist(rng, c, a):
    return {'zero': lambda: 0.0, 'mm': lambda: 10 ** rng.uniform(-4, -1) * a / 6.4e6, 'km': lambda: rng.uniform(1, 1e5) * a / 6.4e6,
            'far': lambda: rng.uniform(0.1, 3.0) * a, 'neg': lambda: -rng.uniform(1e-4, 3.0) * a,
            'turns': lambda: rng.uniform(3.3, 20.0) * a, 'int': lambda: rng.randrange(1, 10 ** 6)}[c['dist']]()


def azim(rng, c):
    return {'n': lambda: 0.0, 's': lambda: rng.choice((PI, -PI)), 'ew': lambda: rng.choice((PI / 2, -PI / 2)),
            'gen': lambda: rng.uniform(-PI, PI), 'nearns': lambda: rng.choice((0, PI)) + rng.choice((-1, 1)) * 10 ** rng.uniform(-9, -2)
            }[c['az']]()


def abs_displace(rng, c):
    n = count(c)
    na, nd, nz = {'nn': (n, n, n), '1n': (1, n, n), 'n1': (n, 1, 1)}[c.get('bc', 'nn')]
    a = ellipsoid(c)[0]
    g = {'A': [apt(rng, c) for _ in range(na)], 'd': [dist(rng, c, a) for _ in range(nd)],
         'az': [azim(rng, c) for _ in range(nz)]}
    if rng.random() < 0.2:
        what = rng.choice(('A', 'd', 'az'))
        if what == 'A':
            shared(rng, g['A'])
        else:
            g[what] = [g[what][0]] * len(g[what])
    return g


def put_deg(a, c):
    d = c.get('deg', 'dflt')
    if d != 'dflt':
        a['degrees'] = d == 'yes'


def unit_of(c, x):
    return np.degrees(x) if c.get('deg') == 'yes' else x


def b_displace(g, c):
    a = {'self': point('G', g['A'], frame(c), zform(c), c.get('form') == 'vec1'), 'd': one_or(g['d']),
         'az': unit_of(c, one_or(g['az']))}
    if isinstance(a['az'], np.generic):
        a['az'] = float(a['az'])
    put_deg(a, c)
    if c.get('unroll') == 'yes':
        a['unroll'] = True
    elif c.get('unroll') == 'no':
        a['unroll'] = False
    return a


UNR = {'degrees': 'degrees', 'unroll': 'long_unroll'}


def call_displace(a, meth):
    k = kws(a, UNR)
    if meth:
        k['method'] = meth
    p, az = a['self'].displace(a['d'], a['az'], **k)
    return {'point': p, 'az': az}


DROLES = {'d': 'num', 'az': 'num'}
reg('o.displace_gc', 'rec', lambda a: call_displace(a, 'greatcircle'), abs_displace,
    lambda g, c: b_displace(g, dict(c, unroll='dflt')), roles=DROLES, twins=('axes', 'turn', 'deg'))
reg('o.displace', 'rec', lambda a: call_displace(a, a.get('_m')), abs_displace,
    lambda g, c: worded(b_displace(g, c), c), roles=DROLES, twins=('axes', 'turn', 'deg'))


def b_dist(g, c):
    A, B = b_pair(g, dict(c, ka='G'))
    a = {'self': A, 'y': B}
    put_deg(a, c)
    if c.get('unroll', 'dflt') != 'dflt':
        a['unroll'] = c['unroll'] == 'yes'
    return a


def call_dist(a, meth):
    k = kws(a, UNR)
    if meth:
        k['method'] = meth
    s, x, y = a['self'].distance_and_azimuth(a['y'], **k)
    return {'s': s, 'az1': x, 'az2': y}


reg('o.dist_az_gc', 'rec', lambda a: call_dist(a, 'greatcircle'), abs_pair, b_dist, twins=('axes', 'kind', 'turn', 'deg'))
reg('o.dist_az', 'rec', lambda a: call_dist(a, a.get('_m')), abs_pair, lambda g, c: worded(b_dist(g, c), c), twins=('axes', 'kind', 'turn', 'deg'))


def abs_inverse(rng, c):
    g = abs_pair(rng, c)
    if 'exact' in c:
        g['A'], g['B'] = [[(geo.nvec(*ll), 0.0, ll)] for ll in (tuple(c['exact'][:2]), tuple(c['exact'][2:]))]
        return g
    if c.get('dep') == 'vecz':
        n = max(len(g['A']), len(g['B']))
        g['z'] = [depth(rng, 'small', ellipsoid(c)[0]) for _ in range(n)]
    elif c.get('dep') != 'none':
        g['z'] = [depth(rng, 'small' if c['dep'] == 'one' else c['dep'], ellipsoid(c)[0])]
    if rng.random() < 0.15:
        g['lon2'] = rng.choice((-1, 1)) * 2 * PI
    if c.get('bad') == 'yes':
        g['bad'] = rng.choice((PI / 2 + 0.2, -2.0))
    return g


def b_inverse(g, c):
    vec = c.get('form') == 'vec1'
    f = lambda p: p[2] or geo.to_latlon(p[0])
    A, B = [f(p) for p in g['A']], [f(p) for p in g['B']]
    lat1 = [x[0] for x in A]
    if 'bad' in g:
        lat1[0] = g['bad']
    a = {'self': frame(c), 'lat1': one_or(lat1, vec), 'lon1': one_or([x[1] for x in A]),
         'lat2': one_or([x[0] for x in B]), 'lon2': one_or([x[1] + g.get('lon2', 0.0) for x in B], vec)}
    for k in ('lat1', 'lon1', 'lat2', 'lon2'):
        a[k] = unit_of(c, a[k])
        if isinstance(a[k], np.generic):
            a[k] = float(a[k])
    if 'z' in g:
        a['z'] = one_or(g['z'])
    put_deg(a, c)
    if c.get('unroll', 'dflt') != 'dflt':
        a['unroll'] = c['unroll'] == 'yes'
    return a


def call_inverse(a):
    s, x, y = a['self'].inverse(a['lat1'], a['lon1'], a['lat2'], a['lon2'],
                                **kws(a, {'z': 'z', 'degrees': 'degrees', 'unroll': 'long_unroll'}))
    return {'s': s, 'az1': x, 'az2': y}


reg('o.inverse', 'rec', call_inverse, abs_inverse, b_inverse,
    roles={k: 'num' for k in ('lat1', 'lon1', 'lat2', 'lon2', 'z')}, twins=('deg',))


def abs_direct(rng, c):
    g = abs_displace(rng, c)
    if c.get('dep') == 'vecz':
        g['z'] = [depth(rng, 'small', ellipsoid(c)[0]) for _ in range(max(len(g['A']), len(g['d'])))]
    elif c.get('dep') != 'none':
        g['z'] = [depth(rng, 'small' if c['dep'] == 'one' else c['dep'], ellipsoid(c)[0])]
    return g


def b_direct(g, c):
    vec = c.get('form') == 'vec1'
    A = [p[2] or geo.to_latlon(p[0]) for p in g['A']]
    a = {'self': frame(c), 'lat1': unit_of(c, one_or([x[0] for x in A])), 'lon1': unit_of(c, one_or([x[1] for x in A])),
         'az': unit_of(c, one_or(g['az'], vec)), 'd': one_or(g['d'], vec)}
    for k in ('lat1', 'lon1', 'az'):
        if isinstance(a[k], np.generic):
            a[k] = float(a[k])
    if 'z' in g:
        a['z'] = one_or(g['z'])
    put_deg(a, c)
    if c.get('unroll') in ('yes', 'no'):
        a['unroll'] = c['unroll'] == 'yes'
    return a


def call_direct(a):
    la, lo, z = a['self'].direct(a['lat1'], a['lon1'], a['az'], a['d'],
                                 **kws(a, {'z': 'z', 'degrees': 'degrees', 'unroll': 'long_unroll'}))
    return {'lat': la, 'lon': lo, 'az': z}


reg('o.direct', 'rec', call_direct, abs_direct, b_direct,
    roles={k: 'num' for k in ('lat1', 'lon1', 'az', 'd', 'z')}, twins=('deg',))


# ------------------------------------------------------------------------ paths
def abs_path(rng, c):
    n = count(c)
    na, nc = {'nn': (n, n), '1n': (1, n), 'n1': (n, 1)}[c.get('bc', 'nn')]
    A = [apt(rng, c) for _ in range(na)]
    g = {'A': A, 'B': [rel_pt(rng, c, p) for p in A]}
    if c.get('rad') == 'any':
        g['radius'] = 10 ** rng.uniform(0, 8)
    elif c.get('rad') == 'int':
        g['radius'] = 6371000
    return g, nc


def b_path(g, c, fr=None):
    fr = fr or frame(c)
    return nv.GeoPath(point(c['ka'], g['A'], fr, zform(c)), point(c['kb'], g['B'], fr, zform(c)))


def put_radius(a, g):
    if 'radius' in g:
        a['radius'] = g['radius']


def b_track(g, c):
    a = {'self': b_path(g, c)}
    put_radius(a, g)
    if c.get('meth', 'dflt') != 'dflt':
        a['method'] = c['meth']
    return a


reg('o.track_gc', None, lambda a: a['self'].track_distance(**kws(a, {'method': 'method', 'radius': 'radius'})),
    lambda rng, c: abs_path(rng, c)[0], b_track)


EXACT = {'dflt': 'ellipsoidal', 'ellipsoidal': 'ellipsoidal', 'ellipsoid': 'ellipsoid', 'exact': 'exact'}
reg('o.track_el', None, lambda a: a['self'].track_distance(method=a['_m']),
    lambda rng, c: abs_path(rng, c)[0],
    lambda g, c: dict(b_track(g, dict(c, meth='dflt')), _m=EXACT[c['meth']], wit=witness))


def abs_path_pt(rng, c):
    c = dict(c)
    g, nc = abs_path(rng, c)
    tol = {'zero': 0.0, 'mm': 1e-3, 'm': 1.0, 'km': 1000.0}.get(c.get('tol'), None)
    scale = min(1.0, ellipsoid(c)[0] / 6.4e6)
    if tol is not None:
        tol *= scale
        g['atol'] = tol
    c['_tol'] = tol if tol is not None else 1e-8
    C = []
    for i in range(nc):
        p, q = g['A'][i % len(g['A'])], g['B'][i % len(g['B'])]
        zm = 0.5 * (p[1] + q[1])
        d = c.get('zc', 'mean')
        if d == 'off':
            zm += rng.choice((-1, 1)) * rng.choice((0.5, 3.0, 100.0)) * max(scale, tol or 0)
        elif d == 'other':
            zm = depth(rng, 'small', ellipsoid(c)[0])
        elif d == 'slight':
            zm += rng.choice((-1, 1)) * 1e-3 * abs(zm)
        n = third(rng, c, p[0], q[0])
        if c['trd'] == 'A' and p[2]:
            C.append((n, zm, p[2]))
        else:
            C.append((n, zm, None))
    g['C'] = C
    return g


def b_path_pt(g, c, atol=True):
    fr = frame(c)
    a = {'self': b_path(g, c, fr), 'y': point(c['kc'], g['C'], fr, zform(c))}
    if 'atol' in g and atol:
        a['atol'] = g['atol']
    if c.get('rtol', 'dflt') == 'big' and atol:
        a['rtol'] = 0.01
    return a


def b_cross(g, c):
    a = b_path_pt(g, c, False)
    put_radius(a, g)
    if c.get('meth', 'dflt') != 'dflt':
        a['method'] = c['meth']
    return a


TOL = {'atol': 'atol', 'rtol': 'rtol'}
reg('o.cross_track', None,
    lambda a: a['self'].cross_track_distance(a['y'], **kws(a, {'method': 'method', 'radius': 'radius'})), abs_path_pt, b_cross)
reg('o.on_circle', None, lambda a: a['self'].on_great_circle(a['y'], **kws(a, {'atol': 'atol'})), abs_path_pt, b_path_pt)
reg('o.on_path_gc', None, lambda a: a['self'].on_path(a['y'], **kws(a, TOL)), abs_path_pt, b_path_pt)


def geodesic_third(rng, c, g):
    """points in relation to the geodesic A-B, at the mean depth"""
    fr_a, fr_f = ellipsoid(c)
    C = []
    for i in range(max(len(g['A']), len(g['C']))):
        p, q = g['A'][i % len(g['A'])], g['B'][i % len(g['B'])]
        zm = 0.5 * (p[1] + q[1])
        la, lb = p[2] or geo.to_latlon(p[0]), q[2] or geo.to_latlon(q[0])
        r = Geodesic(fr_a - zm, fr_f).Inverse(*[math.degrees(x) for x in la + lb])
        s, az = r['s12'], r['azi1']
        t = c['trd']
        x = {'on': rng.uniform(0.02, 0.98), 'mid': 0.5, 'before': -rng.uniform(0.01, 0.9), 'beyond': 1 + rng.uniform(0.01, 0.6),
             'A': 0.0, 'B': 1.0}.get(t)
        if x is None:
            return False
        d = Geodesic(fr_a - zm, fr_f).Direct(math.degrees(la[0]), math.degrees(la[1]), az, s * x)
        ll = (math.radians(d['lat2']), math.radians(d['lon2']))
        if t == 'A':
            ll = la
        elif t == 'B':
            ll = lb
        C.append((geo.nvec(*ll), g['C'][i % len(g['C'])][1], ll))
    g['C'] = C[:max(len(g['C']), 1)]
    return True


def abs_path_el(rng, c):
    g = abs_path_pt(rng, dict(c, trd=c['trd'] if c['trd'] in ('beside', 'opposite', 'any') else 'on'))
    geodesic_third(rng, c, g)
    return g


def witness(a):
    """azimuth and distance of shortest geodesics from the start of the path to its
    end (B) and to the point (C), from the recorded coordinates"""
    p = a['self']
    fr = p.point_a.frame

    def pts(o):
        k = type(o).__name__
        if k == 'GeoPoint':
            la, lo, z = np.broadcast_arrays(o.latitude, o.longitude, o.z)
            return [(float(x), float(v), float(w)) for x, v, w in zip(la.ravel(), lo.ravel(), z.ravel())]
        back = geo.from_e if axis_of(fr) == 'e' else (lambda v: v + 0.0)
        if k == 'Nvector':
            n = np.asarray(o.normal)
            z = np.broadcast_to(o.z, (n.shape[1],))
            return [geo.to_latlon(back(n[:, i])) + (float(z[i]),) for i in range(n.shape[1])]
        m = np.asarray(o.pvector)
        return [geo.inv(back(m[:, i]), float(fr.a), float(fr.f)) for i in range(m.shape[1])]
    A, B = pts(p.point_a), pts(p.point_b)
    C = pts(a['y']) if 'y' in a else [None]
    n = max(len(A), len(B), len(C))
    w = {k + m: [] for k in ('az', 's') for m in ('B', 'C') if m == 'B' or C[0]}
    for i in range(n):
        s, b, t = A[i % len(A)], B[i % len(B)], C[i % len(C)]
        for key, o in (('B', b), ('C', t)):
            if o is None:
                continue
            r = Geodesic(float(fr.a) - 0.5 * (s[2] + o[2]), float(fr.f)).Inverse(
                math.degrees(s[0]), math.degrees(s[1]), math.degrees(o[0]), math.degrees(o[1]))
            w['az' + key].append(math.radians(r['azi1']))
            w['s' + key].append(r['s12'])
    return {k: np.array(v) for k, v in w.items()}


def b_path_el(g, c):
    a = b_path_pt(g, c)
    a['_m'] = EXACT[c['meth']]
    a['wit'] = witness
    return a


reg('o.on_path_el', None, lambda a: a['self'].on_path(a['y'], method=a['_m'], **kws(a, TOL)), abs_path_el, b_path_el)
reg('o.closest_circle', None, lambda a: a['self'].closest_point_on_great_circle(a['y']), abs_path_pt,
    lambda g, c: b_path_pt(g, c, False))
reg('o.closest_path', None, lambda a: a['self'].closest_point_on_path(a['y']), abs_path_pt,
    lambda g, c: b_path_pt(g, c, False), elementwise=False)


def abs_intersect(rng, c):
    n = count(c)
    na, nb = {'nn': (n, n), '1n': (1, n), 'n1': (n, 1)}[c.get('bc', 'nn')]
    A = [apt(rng, c) for _ in range(na)]
    g = {'A': A, 'B': [rel_pt(rng, c, p) for p in A], 'C': [], 'D': []}
    for i in range(nb):
        p, q = A[i % na], g['B'][i % na]
        if c['trd'] in ('same', 'swapped'):
            r = (p, q) if c['trd'] == 'same' else (q, p)
            g['C'].append(r[0])
            g['D'].append(r[1])
            continue
        t = rng.choice(('gen', 'zero', 'antipair', 'at90', 'near90', 'atA', 'perp', 'shallow')) if c['trd'] == 'mix' else c['trd']
        x, y = crossing(rng, dict(c, trd=t), p[0], q[0])
        g['C'].append((x, depth(rng, 'small', ellipsoid(c)[0]), None))
        g['D'].append((y, depth(rng, 'small', ellipsoid(c)[0]), None))
    return g


def b_intersect(g, c):
    fr = frame(c)
    p = b_path(g, c, fr)
    q = nv.GeoPath(point(c['ka'], g['C'], fr), point(c['kb'], g['D'], fr))
    if c['trd'] == 'swapped':
        q = nv.GeoPath(point(c['kb'], g['C'], fr), point(c['ka'], g['D'], fr))
    return named({'self': p, 'y': q, 'same': c['trd'] in ('same', 'swapped') and c.get('bc', 'nn') == 'nn'}, c)



reg('o.path_intersect', None, lambda a: a['self'].intersection(a['y']) if a.get('_nm') else a['self'].intersect(a['y']),
    abs_intersect, b_intersect)


def abs_path_t(rng, c):
    n = count(c)
    na, nt = {'nn': (n, n), '1n': (1, n), 'n1': (n, 1)}[c.get('bc', 'nn')]
    A = [apt(rng, c) for _ in range(na)]
    g = {'A': A, 'B': [rel_pt(rng, c, p) for p in A]}
    g['t'] = [times(rng, c)() for _ in range(nt)]
    return g


def b_path_t(g, c):
    return {'self': b_path(g, c), 't': one_or(g['t']),
            'void': c['rel'] == 'anti' and c['t'] == 'half' and c['ka'] == 'N' and c['kb'] == 'N'}


reg('o.path_interpolate', None, lambda a: a['self'].interpolate(a['t']), abs_path_t, b_path_t, roles={'t': 'num'})


def call_ends(a):
    p = a['self']
    return {'nvectors': list(p.nvectors()), 'geo_points': list(p.geo_points()), 'ecef_vectors': list(p.ecef_vectors()),
            'normals': list(p.nvector_normals()), 'ends': [p.point_a, p.point_b], 'aliases': [p.positionA, p.positionB]}


reg('o.path_ends', 'rec', call_ends, lambda rng, c: abs_path(rng, c)[0], lambda g, c: {'self': b_path(g, c)},
    elementwise=False)


# -------------------------------------------------------- means, series, algebra
def abs_mean(rng, c):
    n = int(c['m'])
    p = apt(rng, c)
    P = [p]
    for _ in range(n - 1):
        q = rel_pt(rng, c, p) if c['rel'] != 'spread' else apt(rng, c, rng.choice((c['pos'], 'gen')))
        P.append(q)
    return {'A': P, 'ln': lengths(rng, c, n)}


reg('o.mean', None, lambda a: a['self'].mean_horizontal_position() if a.get('_nm') else a['self'].mean(), abs_mean,
    lambda g, c: named(b_self(g, dict(c, k='N')), c),
    twins=('axes', 'turn'), elementwise=False)


def abs_series(rng, c):
    s = series_args(rng, dict(c, ax='E'))
    n = s['n'].shape[1]
    zz = [rng.uniform(-500, 500) for _ in range(n)]
    if c.get('dep') == 'one':
        zz = zz[:1]
    s['_z'] = zz
    return s


def b_series(g, c):
    fr = frame(c)
    m = np.array([geo.dec(g['n'][:, i], axis_of(fr)) for i in range(g['n'].shape[1])]).T.copy()
    a = {k: v for k, v in g.items() if k not in ('n', '_z')}
    a['self'] = fr.Nvector(m, one_or(g['_z']))
    return a


reg('o.series', None, lambda a: a['self'].interpolate(a['ti'], a['t'], **ser(a)), abs_series, b_series,
    twins=('axes',), elementwise=False)


def abs_unit(rng, c):
    g = abs_one(rng, dict(c, pos=c['pos']))
    g['s'] = [rng.choice((1.0, 10 ** rng.uniform(-30, 30), rng.uniform(0.1, 10))) for _ in g['A']]
    g['zero'] = c.get('mix') == 'yes'
    return g


def b_unit(g, c):
    fr = frame(c)
    m = np.array([geo.dec(p[0], axis_of(fr)) * s for p, s in zip(g['A'], g['s'])]).T.copy()
    if g['zero']:
        m[:, 0] = 0.0
    z = [p[1] for p in g['A']]
    return {'self': fr.Nvector(m, z[0] if c.get('dep') == 'one' else one_or(z))}


def call_unit(a):
    a['self'].unit()
    return a['self']


reg('o.unit', None, call_unit, abs_unit, b_unit, twins=('axes',))


def abs_arith(rng, c):
    g = abs_pair(rng, c)
    g['by'] = [rng.choice((rng.uniform(0.1, 5), -rng.uniform(0.1, 5), float(rng.randrange(1, 5)))) for _ in
               range(1 if c.get('byn') == 'one' else max(len(g['A']), len(g['B'])))]
    g['int'] = rng.random() < 0.2
    return g


def b_arith(g, c):
    A, B = b_pair(g, dict(c, ka=c['k'], kb=c['k']))
    o = c['op']
    a = {'self': A, 'op': o}
    if o in ('add', 'sub'):
        a['y'] = B
    elif o in ('mul', 'div'):
        if c.get('byn') == 'obj':
            a['y'] = B
        else:
            a['by'] = one_or(g['by'])
            if g['int'] and len(g['by']) == 1:
                a['by'] = 3
            if o == 'mul' and np.ndim(a['by']) == 0 and c.get('side') == 'right':
                a['_right'] = True
    return a


def call_arith(a):
    x, o = a['self'], a['op']
    if o == 'neg':
        r = -x
    elif o == 'add':
        r = x + a['y']
    elif o == 'sub':
        r = x - a['y']
    else:
        y = a['y'] if 'y' in a else a['by']
        if o == 'mul':
            r = y * x if a.get('_right') else x * y
        else:
            r = x / y
    a['isself'] = r is x
    return r


reg('o.arith', None, call_arith, abs_arith, b_arith, roles={'by': 'num'}, twins=('axes',))


def abs_eq(rng, c):
    g = abs_one(rng, c)
    if c.get('part', 'both') != 'both':     # longitude or latitude exactly zero
        for i, p in enumerate(g['A']):
            la, lo = p[2] or geo.to_latlon(p[0])
            ll = (la, 0.0) if c['part'] == 'nolon' else (0.0, lo)
            g['A'][i] = (geo.nvec(*ll), p[1], ll)
    g['wa'] = [ang(rng) for _ in range(1)]
    g['ypr'] = [[ang(rng)] for _ in range(3)]
    g['i'] = rng.randrange(len(g['A']))
    g['sg'] = rng.choice((-1, 1))
    g['e'] = 10 ** rng.choice((rng.uniform(-8, -2), rng.uniform(-13, -8)))
    g['turns'] = rng.choice((-1, 1, 2))
    g['j'] = rng.randrange(3)
    g['fk'] = rng.choice(('a', 'f', 'axes', 'neara', 'nearf'))
    g['other'] = rng.choice(('number', 'text', 'none', 'list'))
    g['kk'] = rng.choice(('G', 'N', 'E', 'FE', 'FN', 'FL', 'FB', 'P'))
    return g


def eq_obj(k, g, c, fr, d=None):
    """object of kind k; d: what to change"""
    A = list(g['A'])
    i = g['i']
    e = g['sg'] * g['e']
    n, z, ll = A[i]
    if d == 'lat':
        la, lo = ll or geo.to_latlon(n)
        la2 = la + e if abs(la + e) < PI / 2 else la - e
        A[i] = (geo.nvec(la2, lo), z, (la2, lo))
    elif d == 'lon':
        la, lo = ll or geo.to_latlon(n)
        A[i] = (geo.nvec(la, lo + e), z, (la, lo + e))
    elif d == 'half':
        la, lo = ll or geo.to_latlon(n)
        lo2 = lo + g['sg'] * PI
        A[i] = (geo.nvec(la, lo2), z, (la, lo2))
    elif d == 'neg':
        la, lo = ll or geo.to_latlon(n)
        la, lo = (-la, lo) if g['j'] == 0 else (la, -lo) if g['j'] == 1 else (-la, -lo)
        A[i] = (geo.nvec(la, lo), z, (la, lo))
    elif d == 'turn':
        la, lo = ll or geo.to_latlon(n)
        A[i] = (n, z, (la, lo + 2 * PI * g['turns']))
    elif d == 'turnulp':                   # rounded to either side of a whole turn
        la, lo = ll or geo.to_latlon(n)
        la2 = min(PI / 2, max(-PI / 2, la + g['sg'] * math.ulp(1.0)))
        A[i] = (n, z, (la2, lo + 2 * PI * g['turns'] + g['sg'] * math.ulp(2 * PI * g['turns'])))
    elif d == 'depth':
        A[i] = (n, z + e * max(1.0, abs(z)), ll)
    elif d == 'tiny':
        A[i] = (n, z * (1 + 1e-14), ll)
    if k in 'GNE':
        return point(k, A, fr, zform(c), c.get('form') == 'vec1')
    if k == 'FE':
        return fr
    A = A[:1]
    if d in ('lat', 'lon', 'half', 'neg', 'depth', 'turn', 'turnulp', 'tiny') and i != 0:
        A = [list(g['A'])[0]]
    wa = g['wa'][0] + (e if d == 'angle' else 0.0)
    ypr = [v[0] for v in g['ypr']]
    if d == 'angle':
        ypr[g['j']] += e
    o = point('N', A, fr, 'auto', c.get('form') == 'vec1')
    if c.get('form') == 'vec1':
        wa, ypr = np.array([wa]), [np.array([v]) for v in ypr]
    if k == 'FN':
        return nv.FrameN(o)
    if k == 'FL':
        return nv.FrameL(o, wa)
    if k == 'FB':
        return nv.FrameB(o, *ypr)
    p = np.array([[1.0], [-2.0], [3.0]])
    if d == 'comp':
        p[g['j']] += e
    return nv.Pvector(p, nv.FrameN(o))


def b_eq(g, c):
    fr = frame(c)
    k, d = c['k'], c['d']
    x = eq_obj(k, g, c, fr)
    fr2 = fr
    if d == 'frame':
        fr2 = frame(c, g['fk'])
    elif d in ('equal', 'turn', 'turnulp', 'tiny'):
        fr2 = frame(c, 'equal')
    if d == 'kind':
        y = eq_obj(g['kk'], g, c, fr2)
    elif d == 'alien':
        y = {'number': 3.0, 'text': 'abc', 'none': None, 'list': [1, 2]}[g['other']]
    elif d == 'self':
        y = x
    elif d == 'zero-wa':                   # FrameL without wander azimuth against FrameN
        o = point('N', g['A'][:1], fr)
        x, y = nv.FrameL(o, 0.0), nv.FrameN(o)
        if g['j'] == 1:
            x, y = y, x
    else:
        y = eq_obj(k, g, c, fr2, d)
    return {'x': x, 'y': y}


def boolean(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    raise TypeError('truth value %r' % (x,))


def call_eq(a):
    x, y = a['x'], a['y']
    return {'xy': boolean(x == y), 'yx': boolean(y == x), 'nexy': boolean(x != y), 'neyx': boolean(y != x),
            'xx': boolean(x == x)}


reg('o.eq', 'bools', call_eq, abs_eq, b_eq, twins=(), elementwise=False)

reg('o.GeoPath', None, lambda a: nv.GeoPath(a['x'], a['y']), abs_pair, b_delta, twins=(), elementwise=False)


# ----------------------------------------------------------------- printed form
NAMES = {'GeoPoint': {'latitude': 'lat', 'longitude': 'lon', 'z': 'z', 'frame': 'frame'},
         'Nvector': {'normal': 'normal', 'z': 'z', 'frame': 'frame'},
         'ECEFvector': {'pvector': 'p', 'frame': 'frame'}, 'Pvector': {'pvector': 'p', 'frame': 'frame'},
         'FrameE': {'a': 'a', 'f': 'f', 'name': 'name', 'R_Ee': 'R'}, 'FrameN': {'nvector': 'origin'},
         'FrameL': {'nvector': 'origin', 'wander_azimuth': 'wa'},
         'FrameB': {'nvector': 'origin', 'yaw': 'yaw', 'pitch': 'pitch', 'roll': 'roll'}}


class Printed:
    """what a printed object says about itself"""
    def __init__(self, kind, said):
        self.kind, self.said = kind, said

    def enc(self):
        import enc
        out = {'k': self.kind}
        for k, v in self.said.items():
            name = NAMES[self.kind].get(k)
            if name is None:
                continue
            out[name] = v.enc() if isinstance(v, Printed) else v if isinstance(v, str) else enc.arr(v)
        return out


def read_printed(text):
    import functools
    space = {k: functools.partial(lambda kind, **kw: Printed(kind, kw), k) for k in NAMES}
    space.update(nan=math.nan, inf=math.inf, array=np.array, float64=float, __builtins__={}, True_=True)
    return eval(text, space)                                   # the text the library printed


def call_repr(a):
    t = repr(a['self'])
    p = read_printed(t)
    if not isinstance(p, Printed):
        raise TypeError('not the printed form of an object: %r' % (t[:80],))
    return {'said': p, 'str': 'same' if str(a['self']) == t else 'other'}


def b_repr(g, c):
    return {'self': eq_obj(c['k'], g, c, frame(c))}


reg('o.repr', 'printed', call_repr, abs_eq, b_repr, twins=(), elementwise=False)
