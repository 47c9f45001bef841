"""The documented functions that do the same as a method: the same scenario made
with the functional interface."""
import numpy as np
import geo
import oops


def cols(pts, ax):
    return np.array([geo.dec(p[0], ax) for p in pts]).T.copy()


def depths(pts):
    z = [p[1] for p in pts]
    return z[0] if len(z) == 1 else np.array(z)


def counterpart(op, g, c, a):
    """[(operation, arguments)]"""
    if g is None:
        return []
    fr = oops.frame(c)
    ax = oops.axis_of(fr)
    ell = {'a': float(fr.a), 'f': float(fr.f)}
    R = {'R': np.array(fr.R_Ee)}
    name = op.name
    if name == 'o.convert' and c['k'] != 'P':
        out = []
        n, z = cols(g['A'], ax), depths(g['A'])
        if c['k'] == 'G':
            ll = [p[2] or geo.to_latlon(p[0]) for p in g['A']]
            la, lo = [oops.one_or([x[i] for x in ll]) for i in (0, 1)]
            out.append(('f.lat_lon2n_E', dict(R, lat=la, lon=lo)))
        elif c['k'] == 'E':
            p = np.array([geo.dec(geo.fwd(q[0], q[1], fr.a, fr.f), ax) for q in g['A']]).T.copy()
            out.append(('f.p_EB_E2n_EB_E', dict(R, p=p, **ell)))
        if c['to'] == 'E':
            out.append(('f.n_EB_E2p_EB_E', dict(R, n=n, depth=z, **ell)))
        elif c['to'] == 'G':
            out.append(('f.n_E2lat_lon', dict(R, n=n)))
        return out
    if name == 'o.delta_E':
        return [('f.delta', dict(R, nA=cols(g['A'], ax), nB=cols(g['B'], ax), zA=depths(g['A']), zB=depths(g['B']), **ell))]
    if name == 'o.R_EN':
        n = cols(g['A'], ax)
        out = [('f.n_E2R_EN', dict(R, n=n))]
        if c.get('lk') == 'L':
            out.append(('f.n_E_and_wa2R_EL', dict(R, n=n, wa=oops.one_or(g['wa']))))
        elif c.get('lk') == 'B':
            y, p, r = [oops.one_or(v) for v in g['ypr']]
            out.append(('f.zyx2R', {'x': r, 'y': p, 'z': y}))
        return out
    if name == 'o.displace_gc':
        s = float(np.linalg.norm(geo.fwd(g['A'][0][0], g['A'][0][1], fr.a, fr.f)))
        return [('f.direct', dict(R, nA=cols(g['A'], ax), d=oops.one_or([x / s for x in g['d']]), az=oops.one_or(g['az'])))]
    if name == 'o.dist_az_gc' and c.get('fr2', 'same') in ('same', 'equal'):
        ab = {'nA': cols(g['A'], ax), 'nB': cols(g['B'], ax)}
        return [('f.great_circle_distance', ab), ('f.azimuth', dict(R, **ab, **ell))]
    if name == 'o.track_gc':
        ab = {'nA': cols(g['A'], ax), 'nB': cols(g['B'], ax)}
        f = 'f.euclidean_distance' if str(c.get('meth', 'dflt')).startswith('eu') else 'f.great_circle_distance'
        return [(f, ab)]
    path = {k: cols(g[v], ax) for k, v in (('p1', 'A'), ('p2', 'B')) if v in g} if isinstance(g, dict) else {}
    if name in ('o.cross_track', 'o.on_circle', 'o.on_path_gc', 'o.closest_circle'):
        b = dict(path, nB=cols(g['C'], ax))
        if name == 'o.cross_track':
            if c.get('meth', 'dflt') != 'dflt':
                b['method'] = c['meth']
            return [('f.cross_track_distance', b)]
        if name == 'o.closest_circle':
            return [('f.closest_circle', b)]
        p = g['A'][0], g['B'][0]
        b['radius'] = 0.5 * sum(float(np.linalg.norm(geo.fwd(q[0], q[1], fr.a, fr.f))) for q in p)
        if 'atol' in g:
            b['atol'] = g['atol']
        return [('f.on_great_circle' if name == 'o.on_circle' else 'f.on_great_circle_path', b)]
    if name == 'o.path_intersect':
        return [('f.intersect', dict(path, q1=cols(g['C'], ax), q2=cols(g['D'], ax)))]
    if name == 'o.path_interpolate':
        return [('f.interpolate', dict(path, t=oops.one_or(g['t'])))]
    if name == 'o.mean':
        return [('f.mean', {'n': cols(g['A'], ax)})]
    if name == 'o.series':
        return [('f.interp_nvectors', {k: v for k, v in a.items() if k != 'self'} | {'n': np.array(a['self'].normal)})]
    return []
