"""The functional interface: for each operation of the specification, how to
call it, and how to make concrete arguments for a scenario class."""
import math
import numpy as np
import nvector as nv
from nvector import core, rotation, util
import geo
from geo import PI

OPS = {}


class Op:
    def __init__(self, name, roles, fields, call, gen, axes=False, elementwise=True):
        self.name, self.roles, self.fields = name, roles, fields
        self.call, self.gen, self.axes, self.elementwise = call, gen, axes, elementwise


def kws(a, names):
    return {py: a[k] for k, py in names.items() if k in a}


ABF = {'a': 'a', 'f': 'f', 'R': 'R_Ee'}
AXES = {'e': geo.R_e, 'E': geo.R_E}


def count(c):
    return int(c.get('n', 1))


def sizes(c, m):
    """number of elements of each of m arguments"""
    n = count(c)
    bc = c.get('bc', 'nn')
    if n == 1 or bc == 'nn':
        return [n] * m
    out = [n if ch == 'n' else 1 for ch in (bc * m)[:m]]
    return out


def axis(c):
    return c.get('ax', 'e') if c.get('ax') in ('e', 'E') else 'e'


def put_axes(a, c):
    if c.get('ax') in ('e', 'E'):
        a['R'] = AXES[c['ax']].copy()


def put_ell(a, c):
    if c.get('ell', 'dflt') != 'dflt':
        a['a'], a['f'] = geo.ell(c)
    return geo.ell(c)


def cols(vs, ax='E', c=None):
    m = np.array([geo.dec(v, ax) for v in vs]).T.copy()
    return m


def forms(x, c, rng):
    """list / tuple / Fortran order / strided instead of a C-contiguous array"""
    f = c.get('form', 'arr')
    if f == 'list' and isinstance(x, np.ndarray):
        return x.tolist()
    if f == 'fortran' and isinstance(x, np.ndarray) and x.ndim == 2:
        return np.asfortranarray(x)
    if f == 'strided' and isinstance(x, np.ndarray) and x.ndim:
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],))
        big[..., ::2] = x
        return big[..., ::2]
    return x


def nums(rng, n, f, c=None):
    """n numbers as an array, or one number as a scalar"""
    if n == 1:
        v = f()
        return v if (c or {}).get('form') != 'vec1' else np.array([v])
    v = np.array([f() for _ in range(n)])
    return v.tolist() if (c or {}).get('form') == 'list' else v


def lens(rng, c):
    return {'unit': lambda: 1.0, 'scaled': lambda: rng.uniform(0.92, 1.08),
            'off': lambda: rng.choice((rng.uniform(1.2, 50.0), rng.uniform(0.01, 0.8)))}[c.get('len', 'unit')]


def depth(rng, cls, a=6378137.0):
    s = a / 6378137.0
    return {'zero': lambda: 0.0, 'small': lambda: rng.uniform(-300.0, 300.0) * s,
            'big': lambda: rng.choice((rng.uniform(-4e7, -1e4), rng.uniform(1e4, 3e6))) * s,
            'rep': lambda: rng.choice((25.0, 25.0, -40.0)) * s,
            'cm': lambda: rng.choice((-1, 1)) * rng.uniform(1e-3, 1.0) * s}[cls]()


def put_depth(rng, a, key, c, n, axis_a, dim='dep'):
    d = c.get(dim, 'none')
    if d == 'none':
        return [0.0] * n
    if d == 'int':
        a[key] = rng.randrange(-500, 500)
        return [float(a[key])] * n
    if n > 1 and d == 'one':
        a[key] = depth(rng, 'small', axis_a)
        return [a[key]] * n
    if d == 'one':
        d = 'small'
    v = [depth(rng, d, axis_a) for _ in range(n)]
    a[key] = v[0] if n == 1 else np.array(v)
    return v


def ang(rng):
    return rng.choice((rng.uniform(-PI, PI), rng.uniform(-PI, PI), rng.uniform(-7, 7),
                       rng.choice((0.0, PI / 2, -PI / 2, PI, -PI, PI / 4)), tiny(rng)))


def tiny(rng):
    return rng.choice((-1, 1)) * 10 ** rng.uniform(-16, -4) + rng.choice((0.0, 0.0, PI / 2, -PI / 2))


def wander(rng, c):
    w = c.get('wa')
    if w == 'turns':
        return rng.choice((-1, 1)) * rng.uniform(PI, 7)
    if w == 'tiny':
        return tiny(rng)
    return rng.randrange(-4, 5) if w == 'int' else ang(rng)


# ------------------------------------------------------- positions, conversions
def g_lat_lon2n_E(rng, c):
    na, nb = sizes(c, 2)
    pts = [geo.latlon(rng, c['pos']) for _ in range(max(na, nb))]
    if c.get('form') == 'wide':
        pts = [(rng.uniform(-10, 10), rng.uniform(-700, 700)) for _ in pts]
    if c.get('form') == 'int':
        pts = [(rng.randrange(-2, 3), rng.randrange(-4, 5)) for _ in pts]
    la, lo = [p[0] for p in pts][:na], [p[1] for p in pts][:nb]
    a = {'lat': la[0] if na == 1 else np.array(la), 'lon': lo[0] if nb == 1 else np.array(lo)}
    if c.get('form') == 'list':
        a = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in a.items()}
    put_axes(a, c)
    return a


OPS['f.lat_lon2n_E'] = Op('f.lat_lon2n_E', {'lat': 'num', 'lon': 'num'}, None,
    lambda a: nv.lat_lon2n_E(a['lat'], a['lon'], **kws(a, {'R': 'R_Ee'})), g_lat_lon2n_E, axes=True)


def g_n(rng, c, key='n'):
    ln = lens(rng, c)
    n = cols([geo.normal(rng, c['pos']) * ln() for _ in range(count(c))], axis(c))
    if c.get('form') == 'int':
        n = cols([rng.choice(([1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]))
                  for _ in range(count(c))], axis(c)).astype(int)
    a = {key: forms(n, c, rng)}
    put_axes(a, c)
    return a


OPS['f.n_E2lat_lon'] = Op('f.n_E2lat_lon', {'n': 'col'}, ('lat', 'lon'),
    lambda a: nv.n_E2lat_lon(a['n'], **kws(a, {'R': 'R_Ee'})), g_n, axes=True)


def g_n2p(rng, c):
    na, nz = sizes(c, 2)
    ln = lens(rng, c)
    a = {'n': cols([geo.normal(rng, c['pos']) * ln() for _ in range(na)], axis(c))}
    A, f = put_ell(a, c)
    put_depth(rng, a, 'depth', c, nz, A)
    put_axes(a, c)
    a['n'] = forms(a['n'], c, rng)
    return a


OPS['f.n_EB_E2p_EB_E'] = Op('f.n_EB_E2p_EB_E', {'n': 'col', 'depth': 'num'}, None,
    lambda a: nv.n_EB_E2p_EB_E(a['n'], **kws(a, dict(ABF, depth='depth'))), g_n2p, axes=True)


def g_p2n(rng, c):
    a = {}
    A, f = put_ell(a, c)
    d = c.get('dep', 'zero')
    ps = [geo.fwd(geo.normal(rng, c['pos']), depth(rng, 'zero' if d == 'none' else d, A), A, f)
          for _ in range(count(c))]
    a['p'] = forms(cols(ps, axis(c)), c, rng)
    put_axes(a, c)
    return a


OPS['f.p_EB_E2n_EB_E'] = Op('f.p_EB_E2n_EB_E', {'p': 'col'}, ('n', 'depth'),
    lambda a: nv.p_EB_E2n_EB_E(a['p'], **kws(a, ABF)), g_p2n, axes=True)


def pairs(rng, c, n):
    A = [geo.normal(rng, c['pos']) for _ in range(n)]
    return A, [geo.related(rng, x, c['rel']) for x in A]


def pair_args(rng, c):
    """two sets of n-vectors; a single one is related to the first of the others"""
    na, nb = sizes(c, 2)
    A, B = pairs(rng, c, max(na, nb))
    if nb == 1 and na > 1:
        B = B[:1]
    if na == 1 and nb > 1:
        B = [geo.related(rng, A[0], c['rel']) for _ in range(nb)]
        A = A[:1]
    return A, B


def g_delta(rng, c):
    A, B = pair_args(rng, c)
    a = {'nA': cols(A, axis(c)), 'nB': cols(B, axis(c))}
    ell = put_ell(a, c)
    put_depth(rng, a, 'zA', c, len(A) if c['dep'] != 'one' else 1, ell[0])
    put_depth(rng, a, 'zB', c, len(B), ell[0])
    if rng.random() < 0.15:
        a.pop(rng.choice(('zA', 'zB')), None)
    put_axes(a, c)
    return a


OPS['f.delta'] = Op('f.delta', {'nA': 'col', 'nB': 'col', 'zA': 'num', 'zB': 'num'}, None,
    lambda a: nv.n_EA_E_and_n_EB_E2p_AB_E(a['nA'], a['nB'], **kws(a, dict(ABF, zA='z_EA', zB='z_EB'))),
    g_delta, axes=True)


def g_add_delta(rng, c):
    na, nb = sizes(c, 2)
    A, B = pair_args(rng, c)
    a = {'nA': cols(A, axis(c))}
    ell = put_ell(a, c)
    za = put_depth(rng, a, 'zA', c, len(A) if c['dep'] != 'one' else 1, ell[0])
    ps = []
    for i in range(max(len(A), len(B))):
        x, y = A[i % len(A)], B[i % len(B)]
        pa = geo.fwd(x, za[i % len(za)], *ell)
        zb = za[i % len(za)] if c['dz'] == 'same' else depth(rng, 'small', ell[0])
        ps.append(geo.fwd(y, zb, *ell) - pa)
    a['p'] = cols(ps[:max(len(B), 1)], axis(c))
    put_axes(a, c)
    return a


OPS['f.add_delta'] = Op('f.add_delta', {'nA': 'col', 'p': 'col', 'zA': 'num'}, ('n', 'z'),
    lambda a: nv.n_EA_E_and_p_AB_E2n_EB_E(a['nA'], a['p'], **kws(a, dict(ABF, zA='z_EA'))),
    g_add_delta, axes=True)

# ---------------------------------------------------------------- local frames
OPS['f.n_E2R_EN'] = Op('f.n_E2R_EN', {'n': 'col'}, None,
    lambda a: nv.n_E2R_EN(a['n'], **kws(a, {'R': 'R_Ee'})), g_n, axes=True)


def g_RL(rng, c):
    na, nw = sizes(c, 2)
    ln = lens(rng, c)
    a = {'n': cols([geo.normal(rng, c['pos']) * ln() for _ in range(na)], axis(c)),
         'wa': nums(rng, nw, lambda: wander(rng, c), c)}
    put_axes(a, c)
    return a


OPS['f.n_E_and_wa2R_EL'] = Op('f.n_E_and_wa2R_EL', {'n': 'col', 'wa': 'num'}, None,
    lambda a: nv.n_E_and_wa2R_EL(a['n'], a['wa'], **kws(a, {'R': 'R_Ee'})), g_RL, axes=True)


def rotmat(rng, kind='gen'):
    if kind == 'id':
        return np.eye(3)
    x, y, z = ang(rng), rng.uniform(-PI / 2, PI / 2) * 0.999, ang(rng)
    if kind == 'lock':
        y = rng.choice((-1, 1)) * (PI / 2 - 10 ** rng.uniform(-4, -1))
    if kind == 'nearlock':
        y = rng.choice((-1, 1)) * (PI / 2 - 10 ** rng.uniform(-10, -4))
    if kind == 'axis':
        x, y, z = [rng.choice((0, PI / 2, PI, -PI / 2)) for _ in range(3)]
        y = 0.0
    cx, sx, cy, sy, cz, sz = math.cos(x), math.sin(x), math.cos(y), math.sin(y), math.cos(z), math.sin(z)
    rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return rx @ ry @ rz if rng.random() < 0.5 else rz @ ry @ rx


def stack(ms):
    return ms[0] if len(ms) == 1 else np.ascontiguousarray(np.moveaxis(np.array(ms), 0, 2))


def g_R(rng, c):
    ms = [rotmat(rng, c.get('rot', 'gen')) for _ in range(count(c))]
    m = stack(ms)
    if count(c) == 1 and c.get('form') == 'stack1':
        m = m[:, :, None].copy()
    if c.get('form') == 'list':
        m = m.tolist()
    return {'R3': m}


OPS['f.R_EN2n_E'] = Op('f.R_EN2n_E', {'R3': 'mat'}, None, lambda a: nv.R_EN2n_E(a['R3']), g_R)
OPS['f.R_EL2n_E'] = Op('f.R_EL2n_E', {'R3': 'mat'}, None, lambda a: nv.R_EL2n_E(a['R3']), g_R)
OPS['f.R2xyz'] = Op('f.R2xyz', {'R3': 'mat'}, ('x', 'y', 'z'), lambda a: nv.R2xyz(a['R3']), g_R)
OPS['f.R2zyx'] = Op('f.R2zyx', {'R3': 'mat'}, ('z', 'y', 'x'), lambda a: nv.R2zyx(a['R3']), g_R)


def g_angles(rng, c):
    n = count(c)
    pat = {'nn': 'nnn', '1n': '1nn', 'n1': 'n1n'}[c.get('bc', 'nn')]
    small = c.get('rot') == 'small'
    f = (lambda: rng.choice((-1, 1)) * 10 ** rng.uniform(-12, -1)) if small else (lambda: ang(rng))
    if c.get('form') == 'int':
        f = lambda: rng.randrange(-4, 5)
    return {k: nums(rng, n if ch == 'n' else 1, f, c) for k, ch in zip('xyz', pat)}


OPS['f.xyz2R'] = Op('f.xyz2R', {'x': 'num', 'y': 'num', 'z': 'num'}, None,
    lambda a: nv.xyz2R(a['x'], a['y'], a['z']), g_angles)
OPS['f.zyx2R'] = Op('f.zyx2R', {'x': 'num', 'y': 'num', 'z': 'num'}, None,
    lambda a: nv.zyx2R(a['z'], a['y'], a['x']), g_angles)

# ------------------------------------------------------------------- the sphere


def g_pair(rng, c):
    A, B = pair_args(rng, c)
    a = {'nA': cols(A, axis(c)), 'nB': cols(B, axis(c))}
    if c.get('rad') == 'one':
        a['radius'] = 1.0
    elif c.get('rad') == 'int':
        a['radius'] = 6371009
    elif c.get('rad') == 'any':
        a['radius'] = 10 ** rng.uniform(-2, 8)
    if c.get('form'):
        k = rng.choice(('nA', 'nB'))
        a[k] = forms(a[k], c, rng)
    return a


PAIR = {'nA': 'col', 'nB': 'col'}
OPS['f.great_circle_distance'] = Op('f.great_circle_distance', PAIR, None,
    lambda a: nv.great_circle_distance(a['nA'], a['nB'], **kws(a, {'radius': 'radius'})), g_pair)
OPS['f.euclidean_distance'] = Op('f.euclidean_distance', PAIR, None,
    lambda a: nv.euclidean_distance(a['nA'], a['nB'], **kws(a, {'radius': 'radius'})), g_pair)
OPS['f.great_circle_normal'] = Op('f.great_circle_normal', PAIR, None,
    lambda a: nv.great_circle_normal(a['nA'], a['nB']), g_pair)


def g_azimuth(rng, c):
    a = g_pair(rng, c)
    put_ell(a, c)
    put_axes(a, c)
    return a


OPS['f.azimuth'] = Op('f.azimuth', PAIR, None,
    lambda a: nv.n_EA_E_and_n_EB_E2azimuth(a['nA'], a['nB'], **kws(a, ABF)), g_azimuth, axes=True)


def g_direct(rng, c):
    n = count(c)
    na, nd, nz = {'nn': (n, n, n), '1n': (1, n, n), 'n1': (n, 1, 1)}[c.get('bc', 'nn')]
    arc = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** rng.uniform(-12, -6), 'gen': lambda: rng.uniform(0.001, PI),
           'quarter': lambda: PI / 2, 'half': lambda: PI, 'neg': lambda: -rng.uniform(0.001, PI),
           'turns': lambda: rng.uniform(3.2, 25.0)}[c['arc']]
    azc = {'n': lambda: 0.0, 's': lambda: rng.choice((PI, -PI)), 'ew': lambda: rng.choice((PI / 2, -PI / 2)),
           'gen': lambda: rng.uniform(-PI, PI), 'wide': lambda: rng.uniform(-20, 20)}[c['az']]
    same = rng.random() < 0.2
    if same and rng.random() < 0.5:                                # elements that share one argument
        azc = (lambda v: lambda: v)(azc())
    elif same:
        arc = (lambda v: lambda: v)(arc())
    a = {'nA': cols([geo.normal(rng, c['pos']) for _ in range(na)], axis(c)),
         'd': nums(rng, nd, arc, c), 'az': nums(rng, nz, azc, c)}
    put_axes(a, c)
    return a


OPS['f.direct'] = Op('f.direct', {'nA': 'col', 'd': 'num', 'az': 'num'}, None,
    lambda a: nv.n_EA_E_distance_and_azimuth2n_EB_E(a['nA'], a['d'], a['az'], **kws(a, {'R': 'R_Ee'})),
    g_direct, axes=True)


def third(rng, c, A, B):
    """a position in relation c['trd'] to the path A-B (north-first)"""
    g = np.cross(A, B)
    s = float(np.linalg.norm(g))
    g = g / s if s > 1e-14 else geo.tangent(rng, A)
    th = math.atan2(s, float(np.dot(A, B)))
    east = np.cross(g, A)

    def along(x):
        return geo.unit(A * math.cos(x) + east * math.sin(x))

    def off(p, x):
        return geo.unit(p * math.cos(x) + g * math.sin(x))
    sg = rng.choice((-1, 1))
    t = c['trd']
    if t == 'mix':
        t = rng.choice(('on', 'mid', 'A', 'B', 'before', 'beyond', 'opposite', 'antiA', 'antimid', 'beside', 'pole', 'nearpole', 'any'))
    r = 6371009.0
    if t == 'on':
        return along(th * rng.uniform(0.02, 0.98))
    if t == 'mid':
        return along(th * 0.5)
    if t == 'A':
        return A.copy()
    if t == 'B':
        return B.copy()
    if t == 'before':
        return along(-rng.choice((10 ** rng.uniform(-13, -5), 10 ** rng.uniform(-5, -1), rng.uniform(0.1, 1.5))))
    if t == 'beyond':
        return along(th + rng.choice((10 ** rng.uniform(-13, -5), 10 ** rng.uniform(-5, -1), rng.uniform(0.1, 1.5))))
    if t == 'opposite':
        return -along(th * rng.uniform(0.02, 0.98))
    if t == 'antiA':
        return -A
    if t == 'antimid':
        return -along(th * 0.5)
    if t == 'beside':
        return off(along(th * rng.uniform(0.02, 0.98)), sg * 10 ** rng.uniform(-7, -1))
    if t == 'tol':        # within / just outside of the default tolerance of a few metres
        return off(along(th * rng.uniform(0.1, 0.9)), sg * rng.choice((0.3, 0.9, 1.1, 3.0)) * c.get('_tol', 1.0) / r)
    if t == 'pole':
        return sg * g
    if t == 'nearpole':
        return off(along(rng.uniform(-PI, PI)), sg * (PI / 2 - 10 ** rng.uniform(-8, -1)))
    return geo.normal(rng, 'gen')


def path_of(rng, c):
    A = geo.normal(rng, c['pos'])
    return A, geo.related(rng, A, c['rel'])


def planar(rng, paths, pts):
    """everything moved into one coordinate plane, where great circles are met exactly"""
    k = rng.randrange(3)

    def flat(v):
        v = np.array(v, dtype=float)
        v[k] = 0.0
        return geo.unit(v) if np.linalg.norm(v) > 0.1 else np.roll(np.array([0.0, 1.0, 0.0]), k)
    return [(flat(p[0]), flat(p[1])) for p in paths], [flat(p) for p in pts]


def g_path_point(rng, c):
    n = count(c)
    npth, npt = {'nn': (n, n), '1n': (1, n), 'n1': (n, 1)}[c.get('bc', 'nn')]
    c = dict(c)
    tol = None
    if c.get('tol') and c['tol'] != 'dflt':
        tol = {'zero': 0.0, 'mm': 1e-3, 'm': 1.0, 'km': 1000.0}[c['tol']]
        c['_tol'] = tol
    elif c.get('trd') == 'tol':
        c['_tol'] = 1e-8
    paths = [path_of(rng, c) for _ in range(npth)]
    pts = [third(rng, c, *paths[i % npth]) for i in range(npt)]
    if c.get('tol') == 'zero' and rng.random() < 0.7:
        paths, pts = planar(rng, paths, pts)
    a = {'p1': cols([p[0] for p in paths]), 'p2': cols([p[1] for p in paths]), 'nB': cols(pts)}
    if c.get('ax') != 'E':
        a = {k: cols([geo.to_e(v[:, i]) for i in range(v.shape[1])]) for k, v in a.items()}
    if c.get('rad') == 'one':
        a['radius'] = 1.0
    elif c.get('rad') == 'any':
        a['radius'] = 10 ** rng.uniform(-2, 8)
    if 'meth' in c and c['meth'] != 'dflt':
        a['method'] = c['meth']
    if tol is not None:
        a['atol'] = tol
    return a


def pp(a):
    return (a['p1'], a['p2'])


TRIPLE = {'p1': 'col', 'p2': 'col', 'nB': 'col'}
OPS['f.cross_track_distance'] = Op('f.cross_track_distance', TRIPLE, None,
    lambda a: nv.cross_track_distance(pp(a), a['nB'], **kws(a, {'method': 'method', 'radius': 'radius'})), g_path_point)
OPS['f.closest_circle'] = Op('f.closest_circle', TRIPLE, None,
    lambda a: nv.closest_point_on_great_circle(pp(a), a['nB']), g_path_point)
OPS['f.on_great_circle'] = Op('f.on_great_circle', TRIPLE, None,
    lambda a: nv.on_great_circle(pp(a), a['nB'], **kws(a, {'radius': 'radius', 'atol': 'atol'})), g_path_point)
OPS['f.on_great_circle_path'] = Op('f.on_great_circle_path', TRIPLE, None,
    lambda a: nv.on_great_circle_path(pp(a), a['nB'], **kws(a, {'radius': 'radius', 'atol': 'atol'})), g_path_point)


def crossing(rng, c, A, B):
    """a second path, in relation c['trd'] to the first"""
    g = np.cross(A, B)
    s = float(np.linalg.norm(g))
    g = g / s if s > 1e-14 else geo.tangent(rng, A)
    east = np.cross(g, A)
    t = c['trd']
    if t == 'mix':
        t = rng.choice(('gen', 'same', 'swapped', 'zero', 'antipair', 'at90', 'near90', 'atA', 'perp', 'shallow'))
    if t == 'same':
        return A.copy(), B.copy()
    if t == 'swapped':
        return B.copy(), A.copy()
    if t == 'zero':
        C = geo.normal(rng, 'gen')
        return C, C.copy()
    if t == 'antipair':
        C = geo.normal(rng, 'gen')
        return C, -C
    x = rng.uniform(-PI, PI)
    if t == 'at90':                # crossing 90 degrees from A
        x = rng.choice((-1, 1)) * PI / 2
    if t == 'near90':
        x = rng.choice((-1, 1)) * PI / 2 + rng.choice((-1, 1)) * 10 ** rng.uniform(-7, -1.5)
    if t == 'atA':
        x = 0.0
    X = geo.unit(A * math.cos(x) + east * math.sin(x))
    d = np.cross(X, g)
    if t == 'perp':
        tng = g
    elif t == 'shallow':
        e = 10 ** rng.uniform(-4, -1)
        tng = geo.unit(g * math.sin(e) + d * math.cos(e))
    else:
        e = rng.uniform(0.2, 2.9)
        tng = geo.unit(g * math.sin(e) + d * math.cos(e))
    u, v = rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)
    if abs(math.sin(u - v)) < 0.05:
        v = u + 0.7
    return (geo.unit(X * math.cos(u) + tng * math.sin(u)), geo.unit(X * math.cos(v) + tng * math.sin(v)))


def g_intersect(rng, c):
    n = count(c)
    na, nb = {'nn': (n, n), '1n': (1, n), 'n1': (n, 1)}[c.get('bc', 'nn')]
    P = [path_of(rng, c) for _ in range(na)]
    Q = [crossing(rng, c, *P[i % na]) for i in range(nb)]
    if c.get('mix') == 'yes' and nb > 1:
        Q[rng.randrange(nb)] = crossing(rng, dict(c, trd='gen'), *P[0])
    ax = 'E' if c.get('ax') == 'E' else 'e'
    return {'p1': cols([x[0] for x in P], ax), 'p2': cols([x[1] for x in P], ax),
            'q1': cols([x[0] for x in Q], ax), 'q2': cols([x[1] for x in Q], ax)}


OPS['f.intersect'] = Op('f.intersect', {'p1': 'col', 'p2': 'col', 'q1': 'col', 'q2': 'col'}, None,
    lambda a: nv.intersect((a['p1'], a['p2']), (a['q1'], a['q2'])), g_intersect)


def times(rng, c):
    return {'0': lambda: 0.0, '1': lambda: 1.0, 'half': lambda: 0.5, 'in': lambda: rng.uniform(0.001, 0.999),
            'neg': lambda: -rng.choice((rng.uniform(0.01, 3.0), 10 ** rng.uniform(1, 20))),
            'more': lambda: rng.choice((rng.uniform(1.01, 4.0), 10 ** rng.uniform(1, 20))),
            'int': lambda: rng.randrange(-1, 3)}[c['t']]


def g_interpolate(rng, c):
    n = count(c)
    na, nt = {'nn': (n, n), '1n': (1, n), 'n1': (n, 1)}[c.get('bc', 'nn')]
    P = [path_of(rng, c) for _ in range(na)]
    ax = 'E' if c.get('ax') == 'E' else 'e'
    return {'p1': cols([x[0] for x in P], ax), 'p2': cols([x[1] for x in P], ax), 't': nums(rng, nt, times(rng, c))}


OPS['f.interpolate'] = Op('f.interpolate', {'p1': 'col', 'p2': 'col', 't': 'num'}, None,
    lambda a: nv.interpolate(pp(a), a['t']), g_interpolate)


def g_set(rng, c):
    n = int(c.get('m', 3))
    A = geo.normal(rng, c['pos'])
    pts = [geo.related(rng, A, rng.choice(('km', 'deg', 'deg')) if c['rel'] == 'cluster' else c['rel']) for _ in range(n)]
    if c['rel'] == 'spread':
        pts = [geo.normal(rng, 'gen') for _ in range(n)]
    return pts


def g_mean(rng, c):
    c = dict(c)
    n = int(c['m'])
    if c['rel'] == 'spread':
        pts = [geo.normal(rng, rng.choice((c['pos'], 'gen'))) for _ in range(n)]
    else:
        A = geo.normal(rng, c['pos'])
        pts = [geo.related(rng, A, c['rel']) for _ in range(n)]
    ln = lens(rng, c)
    pts = [p * ln() for p in pts]
    return {'n': forms(cols(pts, 'E' if c.get('ax') == 'E' else 'e'), c, rng)}


OPS['f.mean'] = Op('f.mean', {'n': 'const'}, None, lambda a: nv.mean_horizontal_position(a['n']), g_mean,
                   elementwise=False)


def series_args(rng, c):
    n = {'short': rng.choice((2, 3, 4)), 'mid': rng.randrange(7, 12), 'long': rng.randrange(15, 25)}[c['len_t']]
    w = c.get('win', 'none')
    a = {}
    if w != 'none':
        win = {'odd': rng.choice((3, 5, 7)), 'even': rng.choice((2, 4, 6))}[w]
        n = max(n, win + 2 + rng.randrange(4))
        a['window'] = win
        odd = win | 1
        if rng.random() < 0.6:
            a['order'] = rng.randrange(1, min(odd, 4))
        elif odd <= 2:
            a['order'] = 1
        if c['mode'] != 'dflt':
            a['mode'] = c['mode']
            if c['mode'] == 'constant' and rng.random() < 0.6:
                a['cval'] = rng.choice((0.0, rng.uniform(-1, 1)))
    kind = c['kind']
    if kind[0] == 'i':                                         # the order as a number
        a['_kind'] = int(kind[1])
        kind = ('zero', 'slinear', 'quadratic', 'cubic', 'order4', 'order5')[a['_kind']]
    if kind != 'dflt':
        a['kind'] = kind
    if kind in ('quadratic', 'cubic', 'order4', 'order5'):
        n = max(n, 8)
    if c['times'] == 'uniform':
        t = np.arange(n) * 1.0
    elif c['times'] == 'int':
        t = np.arange(n)
    else:
        t = np.cumsum([rng.uniform(0.05, 3.0) for _ in range(n)]) - 5.0
    if not a.get('window'):                 # smoothing is in the order given: sorted only
        if c['times'] == 'down':
            t = t[::-1].copy()
        elif c['times'] == 'unsorted':
            perm = list(range(n))
            rng.shuffle(perm)
            t = t[perm]
    a['t'] = t
    q = c['qry']
    T = sorted(float(x) for x in t)

    def one(k):
        i = rng.randrange(n - 1)
        return {'samples': lambda: rng.choice(T), 'ends': lambda: rng.choice((T[0], T[-1])),
                'inside': lambda: T[i] + (T[i + 1] - T[i]) * rng.uniform(0.02, 0.98),
                'out': lambda: rng.choice((T[0] - rng.uniform(1e-9, 2), T[-1] + rng.uniform(1e-9, 2),
                                          min(math.nextafter(T[0], -9e9), T[0] - 10 ** rng.uniform(-16, -1) * abs(T[0])),
                                          max(math.nextafter(T[-1], 9e9), T[-1] + 10 ** rng.uniform(-16, -1) * abs(T[-1]))))}[k]()
    m = rng.choice((1, 2, 3, 5))
    if q == 'mixed':
        ti = [one(k) for k in ('samples', 'inside', 'out', 'ends', 'inside')]
    else:
        ti = [one(q) for _ in range(m)]
    a['ti'] = np.array(ti)
    base = geo.normal(rng, c['pos'])
    step = geo.tangent(rng, base)
    if c['track'] == 'smooth':
        pts = [geo.unit(geo.move(base, step, 0.02 * i) + 0.002 * geo.tangent(rng, base)) for i in range(n)]
    elif c['track'] == 'still':
        pts = [base.copy() for _ in range(n)]
    else:
        pts = [geo.related(rng, base, 'deg') for _ in range(n)]
    a['n'] = cols(pts, 'E' if c.get('ax') == 'E' else 'e')
    return a


def g_interp(rng, c):
    return series_args(rng, c)


def ser(a):
    return dict(kws(a, SER), **({'kind': a['_kind']} if '_kind' in a else {}))


SER = {'kind': 'kind', 'window': 'window_length', 'order': 'polyorder', 'mode': 'mode', 'cval': 'cval'}
OPS['f.interp_nvectors'] = Op('f.interp_nvectors', {}, None,
    lambda a: nv.interp_nvectors(a['ti'], a['t'], a['n'], **ser(a)), g_interp, elementwise=False)

# -------------------------------------------------------------------- utilities


def g_unit(rng, c):
    n = count(c)

    def one(cls):
        if cls == 'zero':
            return np.zeros(3)
        if cls == 'axis':
            v = np.zeros(3)
            v[rng.randrange(3)] = rng.choice((-1, 1)) * 10 ** rng.uniform(-130, 130)
            return v
        if cls == 'skew':
            return np.array([rng.uniform(-1, 1) * 10 ** rng.uniform(-12, 12) for _ in range(3)])
        s = {'tiny': 10 ** rng.uniform(-139, -100), 'small': 10 ** rng.uniform(-30, -3), 'one': 1.0,
             'big': 10 ** rng.uniform(3, 30), 'huge': 10 ** rng.uniform(100, 139), 'int': 1.0}[cls]
        v = np.array([rng.gauss(0, 1) for _ in range(3)]) * s
        if cls == 'int':
            v = np.array([rng.randrange(-9, 10) for _ in range(3)])
            if not v.any():
                v[0] = 3
        return v
    kinds = [c['size']] * n
    if c.get('mix') == 'yes' and n > 1:
        kinds[rng.randrange(n)] = 'zero'
    v = np.array([one(k) for k in kinds]).T.copy()
    if c['size'] == 'int' and c.get('mix') != 'yes':
        v = v.astype(int)
    a = {'v': forms(v, c, rng)}
    if c.get('nz') == 'nan':
        a['nz'] = math.nan
    elif c.get('nz') == 'one':
        a['nz'] = 1
    return a


OPS['f.unit'] = Op('f.unit', {'v': 'col'}, None,
    lambda a: nv.unit(a['v'], **kws(a, {'nz': 'norm_zero_vector'})), g_unit)


def g_close(rng, c):
    sh = {'s': ((), ()), 'v': ((4,), (4,)), 'sv': ((), (3,)), 'vs': ((3,), ()), 'm': ((3, 2), (3, 2)),
          'mv': ((2, 3), (3,)), 'mc': ((3, 2), (3, 1)), 'cr': ((3, 1), (1, 4))}[c['shape']]
    rtol = {'dflt': None, 'zero': 0.0, 'any': 10 ** rng.uniform(-12, -1), 'big': rng.uniform(0.1, 0.9)}[c['rtol']]
    atol = {'dflt': None, 'zero': 0.0, 'any': 10 ** rng.uniform(-12, 0)}[c['atol']]
    agg = c.get('agg')
    rt = rtol if rtol is not None else (1e-7 if agg else 1e-9)
    at = atol if atol is not None else (1e-14 if agg else 0.0)

    def base():
        return rng.choice((-1, 1)) * 10 ** rng.uniform(-6, 6)
    full = np.broadcast(np.zeros(sh[0]), np.zeros(sh[1])).shape

    def val():
        k = c['val']
        if k == 'special':
            return rng.choice((math.nan, math.inf, -math.inf, 0.0, 1.0, -1.0))
        if k == 'ints':
            return rng.randrange(-3, 4)
        return base()
    x = np.array([val() for _ in range(int(np.prod(sh[0], dtype=int)))]).reshape(sh[0])
    y = np.array([val() for _ in range(int(np.prod(sh[1], dtype=int)))]).reshape(sh[1])
    if c['val'] in ('near', 'edge', 'one-off'):
        y = np.broadcast_to(x, full).copy() if np.size(x) >= np.size(y) else y
        if np.size(x) >= np.size(y):
            y = np.array(np.broadcast_to(x, full)).ravel()[:int(np.prod(sh[1], dtype=int))].reshape(sh[1])
        else:
            x = y.ravel()[:int(np.prod(sh[0], dtype=int))].reshape(sh[0])
        m = {'near': 0.3, 'edge': rng.choice((0.9, 0.999, 1.001, 1.1)), 'one-off': 0.3}[c['val']]

        def pert(v, m):
            lim = max(at, rt * abs(v))
            return v + rng.choice((-1, 1)) * m * lim
        y = np.array([pert(v, m) for v in y.ravel()]).reshape(sh[1])
        if c['val'] == 'one-off' and y.size:
            f = y.ravel().copy()
            i = rng.randrange(f.size)
            f[i] = pert(f[i], rng.choice((3.0, 30.0))) + (1e-3 if rt == 0 and at == 0 else 0)
            y = f.reshape(sh[1])
    if rng.random() < 0.5 and sh[0] == sh[1]:
        x, y = y, x
    a = {'x': x if sh[0] else x[()], 'y': y if sh[1] else y[()]}
    if rtol is not None:
        a['rtol'] = rtol
    if atol is not None:
        a['atol'] = atol
    if c['nan'] != 'dflt':
        a['equal_nan'] = c['nan'] == 'yes'
    return a


CL = {'rtol': 'rtol', 'atol': 'atol', 'equal_nan': 'equal_nan'}
OPS['f.isclose'] = Op('f.isclose', {}, None, lambda a: nv.util.isclose(a['x'], a['y'], **kws(a, CL)), g_close,
                      elementwise=False)
OPS['f.allclose'] = Op('f.allclose', {}, None, lambda a: nv.util.allclose(a['x'], a['y'], **kws(a, CL)),
                       lambda rng, c: g_close(rng, dict(c, agg=1)), elementwise=False)


def g_mdot(rng, c):
    n = count(c)
    na, nb = {'nn': (n, n), '1n': (0, n), 'n1': (n, 0)}[c.get('bc', 'nn')] if c['stk'] == 'yes' else (0, 0)
    i, j, k = {'333': (3, 3, 3), '331': (3, 3, 1), '133': (1, 3, 3), '131': (1, 3, 1), '234': (2, 3, 4)}[c['dims']]

    def mk(r, s, m):
        sh = (r, s) + ((m,) if m else ())
        v = np.array([rng.choice((rng.uniform(-1, 1), rng.uniform(-1e6, 1e6))) for _ in range(int(np.prod(sh)))])
        if c.get('form') == 'int':
            v = np.round(v % 10).astype(int)
        return v.reshape(sh)
    a = {'x': mk(i, j, na), 'y': mk(j, k, nb)}
    if c.get('form') == 'list':
        a['x'] = a['x'].tolist()
    return a


OPS['f.mdot'] = Op('f.mdot', {}, None, lambda a: nv.mdot(a['x'], a['y']), g_mdot, elementwise=False)


def g_root(rng, c):
    n = count(c)
    f = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** rng.uniform(-12, -4), 'wee': lambda: 10 ** rng.uniform(-290, -12),
         'vast': lambda: 10 ** rng.uniform(12, 290), 'one': lambda: 1.0 + rng.choice((0.0, rng.uniform(-1e-9, 1e-9))), 'gen': lambda: rng.uniform(0.01, 100.0),
         'big': lambda: 10 ** rng.uniform(3, 12), 'int': lambda: rng.randrange(0, 1000)}[c['size']]
    x = nums(rng, n, f, c)
    return {'x': x, 'deg': int(c['deg'])}


OPS['f.nthroot'] = Op('f.nthroot', {}, None, lambda a: nv.util.nthroot(a['x'], a['deg']), g_root, elementwise=False)


def g_units(rng, c):
    k = int(c['args'])
    f = {'gen': lambda: rng.uniform(-400, 400), 'tiny': lambda: rng.uniform(-1, 1) * 1e-9, 'int': lambda: rng.randrange(-360, 361),
         'zero': lambda: 0.0, 'big': lambda: rng.uniform(-1e9, 1e9)}[c['size']]
    return {'args': [nums(rng, rng.choice((1, count(c))), f, c) for _ in range(k)]}


def seq_result(r, k):
    return (r,) if k == 1 else r


OPS['f.deg'] = Op('f.deg', {}, 'seq', lambda a: seq_result(nv.deg(*a['args']), len(a['args'])), g_units, elementwise=False)
OPS['f.rad'] = Op('f.rad', {}, 'seq', lambda a: seq_result(nv.rad(*a['args']), len(a['args'])), g_units, elementwise=False)

# the documented ellipsoids: number, names (see get_ellipsoid's documentation)
ELLNAMES = {1: ['Airy 1858'], 2: ['Airy Modified'], 3: ['Australian National'], 4: ['Bessel 1841', 'Bessel'],
            5: ['Clarke 1880'], 6: ['Everest 1830'], 7: ['Everest Modified'], 8: ['Fisher 1960'], 9: ['Fisher 1968'],
            10: ['Hough 1956', 'Hough'], 11: ['International (Hayford)/European Datum (ED50)', 'International', 'Hayford', 'ED50'],
            12: ['Krassovsky 1938', 'Krassovsky'], 13: ['NWL-9D (WGS 66)', 'NWL-9D', 'WGS 66', 'WGS66'],
            14: ['South American 1969', 'SAD69'], 15: ['Soviet Geod. System 1985'], 16: ['WGS 72', 'WGS72'],
            17: ['Clarke 1866 (NAD27)', 'Clarke 1866', 'NAD27'],
            18: ['GRS80 / WGS84 (NAD83)', 'GRS80', 'WGS84', 'NAD83', 'WGS 84'], 19: ['ETRS89']}
UNKNOWN = ['WGS85', 'nonsense', '', 'wgs', 'clarke', '84', 'airy1859']


def spell(rng, name, how):
    if how == 'lower':
        return name.lower()
    if how == 'upper':
        return name.upper()
    if how == 'nospace':
        return name.replace(' ', '')
    if how == 'mixed':
        s = ''.join(ch.upper() if rng.random() < 0.5 else ch.lower() for ch in name)
        return s.replace(' ', '') if rng.random() < 0.5 else s.replace(' ', '  ')
    return name


def canon(name):
    return name.lower().replace(' ', '')


def g_ellipsoid(rng, c):
    i = int(c['which'])
    if c['how'] == 'unknown':
        if rng.random() < 0.4:
            return {'num': rng.choice((0, 20, 21, -1, 100))}
        s = rng.choice(UNKNOWN)
        return {'key': canon(s), '_name': s}
    nm = {'_nm': 'alias'} if c.get('nm') == 'alias' else {}
    if c['how'] == 'number':
        return dict(nm, num=i)
    s = spell(rng, rng.choice(ELLNAMES[i]), c['how'])
    return dict(nm, key=canon(s), _name=s)


def call_ellipsoid(a):
    r = (util.select_ellipsoid if a.get('_nm') else util.get_ellipsoid)(a['num'] if 'num' in a else a['_name'])
    x, f, name = r
    return {'a': x, 'f': f, 'name': str(name)}


OPS['f.get_ellipsoid'] = Op('f.get_ellipsoid', {}, 'rec', call_ellipsoid, g_ellipsoid, elementwise=False)
OPS['f.E_rotation'] = Op('f.E_rotation', {}, None, lambda a: rotation.E_rotation(**kws(a, {'axes': 'axes'})),
                         lambda rng, c: {} if c['axes'] == 'dflt' else {'axes': c['axes']}, elementwise=False)
