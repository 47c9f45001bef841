"""Runs programs generated from Session.tla on the library, and records them.

    session_driver.py PLAN OUTDIR     (started by sessions.py)

Every program runs in a process of its own that has not called the library
before; some of its calls are made once more, each in a fresh process that does
only what that call depends on.
"""
import json
import os
import random
import sys
import warnings
import driver
import numpy as np
import enc
import geo

nv = fops = oops = None
CLASS = {'G': 'GeoPoint', 'N': 'Nvector', 'E': 'ECEFvector'}


def load():
    global nv, fops, oops
    import nvector
    import fops as f
    import oops as o
    nv, fops, oops = nvector, f, o
    assert os.path.realpath(nvector.__file__).startswith(os.path.realpath(os.path.join(driver.REPO, 'src')) + os.sep)


# ------------------------------------------------------------------ the world
class World:
    """the live objects of a program; handles are the numbers of Session.tla"""
    def __init__(self, seed, fscs):
        self.obj, self.seen, self.seed, self.fscs = {}, {}, seed, fscs
        rng = random.Random('%s:w' % seed)
        self.n = rng.choice((1, 1, 1, 2, 3))
        cls = rng.choice(('gen', 'gen', 'gen', 'eq', 'np', 'dl', 'nearp'))
        base = geo.normal(rng, cls)
        self.base = [base] + [geo.related(rng, base, rng.choice(('km', 'deg', 'far'))) for _ in range(self.n - 1)]
        self.size = rng.choice(('km', 'deg', 'far'))

    def ref(self, o):
        for h, x in self.obj.items():
            if x is o:
                return h
        return None

    def encode(self, h):
        o = self.obj[h]
        return enc.obj(o, lambda x: None if x is o else self.ref(x))

    def changes(self):
        """heap objects that are not what they were; globals included"""
        out = []
        for h in self.obj:
            try:
                e = self.encode(h)
            except Exception as err:
                e = {'k': 'other', 'name': type(err).__name__}
            if self.seen.get(h) is not None and self.seen[h] != e:
                out.append({'h': h, 'o': e})
            self.seen[h] = e
        return out

    def bind(self, h, o):
        self.obj[h] = o
        self.seen[h] = self.encode(h)

    def rng(self, i):
        return random.Random('%s:%d' % (self.seed, i))


def surroundings():
    """state outside the objects that a call must not touch"""
    import decimal
    import locale
    return repr((sorted(np.geterr().items()), sorted((k, str(v)) for k, v in np.get_printoptions().items()),
                 random.getstate()[1][:3], [int(x) for x in np.random.get_state()[1][:3]],
                 os.getcwd(), [str(f[:3]) for f in warnings.filters], locale.setlocale(locale.LC_ALL),
                 sorted((str(k), str(v)) for k, v in nv.util.ELLIPSOID.items()) if hasattr(nv.util, 'ELLIPSOID') else ''))


# ------------------------------------------------------------- steps to calls
def positions(w, rng, fr, far=True):
    rel = rng.choice(('same', 'km', w.size, w.size))
    return [(geo.related(rng, b, rel), rng.choice((0.0, rng.uniform(-500, 500))), None)
            for b in w.base]


def arrays(rng, w, f):
    return f() if w.n == 1 else np.array([f() for _ in range(w.n)])


def call_of(w, s, i):
    """(operation, arguments) of a step, None if it cannot be made"""
    o, rng = w.obj, w.rng(i)
    x, y = o.get(s['x']), o.get(s['y'])
    if (s['x'] and x is None) or (s['y'] and y is None):
        return None
    do, v, how = s['do'], s['v'], s['w']
    num = lambda f: arrays(rng, w, f)
    if do == 'frame':
        return 'o.FrameE', {1: {}, 2: {'a': 6378137.0, 'f': 1.0 / 298.257223563}, 3: {'axes': 'E'},
                            4: {'a': 6371000.0, 'f': 0.0}}[v]
    if do == 'point':
        P = positions(w, rng, x)
        if how == 'G':
            ll = [geo.to_latlon(p[0]) for p in P]
            return 'o.GeoPoint', {'lat': oops.one_or([q[0] for q in ll]), 'lon': oops.one_or([q[1] for q in ll]),
                                  'z': oops.one_or([p[1] for p in P]), 'frame': x, '_via': 'frame' if v % 2 else 'class'}
        ax = oops.axis_of(x)
        if how == 'N':
            return 'o.Nvector', {'normal': np.array([geo.dec(p[0], ax) for p in P]).T.copy(),
                                 'z': oops.one_or([p[1] for p in P]), 'frame': x, '_via': 'frame' if v % 2 else 'class'}
        return 'o.ECEFvector', {'p': np.array([geo.dec(geo.fwd(p[0], p[1], float(x.a), float(x.f)), ax) for p in P]).T.copy(),
                                'frame': x, '_via': 'frame' if v % 2 else 'class'}
    if do == 'local':
        if how == 'LN':
            return 'o.FrameN', {'x': x}
        if how == 'LL':
            return 'o.FrameL', {'x': x, 'wa': num(lambda: fops.ang(rng))}
        return 'o.FrameB', {'x': x, 'yaw': num(lambda: fops.ang(rng)), 'pitch': num(lambda: rng.uniform(-1.5, 1.5)),
                            'roll': num(lambda: fops.ang(rng)), 'degrees': False}
    if do == 'path':
        return 'o.GeoPath', {'x': x, 'y': y}
    if do == 'pvector':
        m = np.array([[rng.uniform(-1e4, 1e4) for _ in range(w.n)] for _ in range(3)])
        return 'o.Pvector', {'p': m, 'frame': x, '_via': 'frame' if v == 1 else 'class'}
    if do == 'convert':
        return 'o.convert', {'self': x, 'to': CLASS[how]}
    if do == 'delta':
        if how == 'E':
            return 'o.delta_E', {'x': x, 'y': y}
        a = {'x': x, 'y': y, 'k': 'FrameL' if how == 'L' else 'FrameN', '_via': how}
        if how == 'L':
            a['wa'] = rng.uniform(-3, 3)
        return 'o.delta_local', a
    if do == 'change':
        return 'o.change_frame', {'self': x, 'frame': y}
    if do == 'back':
        return 'o.to_ecef_local', {'self': x}
    if do == 'displace':
        a = {'self': x, 'd': num(lambda: rng.uniform(-1, 1) * 10 ** rng.uniform(0, 6.5)), 'az': num(lambda: rng.uniform(-3, 3)),
             'degrees': False}
        if v == 2:
            a.update(degrees=True, az=np.degrees(a['az']) if w.n > 1 else float(np.degrees(a['az'])))
        return ('o.displace_gc' if how == 'gc' else 'o.displace'), a
    if do == 'interp':
        return 'o.path_interpolate', {'self': x, 't': {1: 0.0, 2: 0.5}.get(v, rng.uniform(-0.5, 1.5)), 'void': False}
    if do == 'intersect':
        return 'o.path_intersect', {'self': x, 'y': y, 'same': False}
    if do == 'closest':
        return ('o.closest_path' if how == 'path' and oops.obj_len(x) == 1 == oops.obj_len(y) else 'o.closest_circle'), \
            {'self': x, 'y': y}
    if do == 'mean':
        return 'o.mean', {'self': x}
    if do == 'arith':
        a = {'self': x, 'op': how}
        if how in ('add', 'sub'):
            a['y'] = y
        elif how != 'neg':
            a['by'] = rng.uniform(0.5, 2.0) if v == 1 else -rng.uniform(0.5, 2.0)
        return 'o.arith', a
    if do == 'unit':
        return 'o.unit', {'self': x}
    if do == 'dist':
        return ('o.dist_az' if how == 'dist' else 'o.dist_az_gc'), {'self': x, 'y': y, 'degrees': v == 2}
    if do == 'pathpoint':
        op = {'cross': 'o.cross_track', 'on_circle': 'o.on_circle', 'on_path': 'o.on_path_gc', 'on_path_el': 'o.on_path_el'}[how]
        a = {'self': x, 'y': y}
        if how == 'on_path_el':
            a.update(_m='exact', wit=oops.witness)
        return op, a
    if do == 'path1':
        if how == 'track_el':
            return 'o.track_el', {'self': x, '_m': 'exact', 'wit': oops.witness}
        return {'track': 'o.track_gc', 'ends': 'o.path_ends'}[how], {'self': x}
    if do == 'R_EN':
        return 'o.R_EN', {'self': x}
    if do == 'polar':
        return 'o.polar', {'self': x}
    if do == 'latlon':
        return 'o.latlon', {'self': x}
    if do == 'geodesic':
        la, lo = (lambda: rng.uniform(-1.5, 1.5)), (lambda: rng.uniform(-3, 3))
        if how == 'inverse':
            return 'o.inverse', {'self': x, 'lat1': num(la), 'lon1': num(lo), 'lat2': num(la), 'lon2': num(lo),
                                 'z': {1: 0.0, 2: 100.0}.get(v, rng.uniform(-1e3, 1e3)), 'degrees': False}
        return 'o.direct', {'self': x, 'lat1': num(la), 'lon1': num(lo), 'az': num(lo), 'd': num(lambda: rng.uniform(-1, 1) * 1e7),
                            'z': {1: 0.0, 2: 100.0}.get(v, rng.uniform(-1e3, 1e3)), 'degrees': False, 'unroll': v == 3}
    if do == 'eq':
        return 'o.eq', {'x': x, 'y': y}
    if do == 'repr':
        return 'o.repr', {'self': x}
    if do == 'func':
        return function(w, rng, x, v)
    raise KeyError(do)


def function(w, rng, x, v):
    """a function on the very arrays the object holds, or on others"""
    held_ = x.normal if type(x).__name__ == 'Nvector' else x.pvector
    if v >= 4 or not np.all(np.isfinite(held_)):
        op = rng.choice(sorted(w.fscs))
        a = driver.complete_args(fops.OPS[op].gen(rng, rng.choice(w.fscs[op])))
        return op, a
    fr = x.frame
    R = {'R': fr.R_Ee}
    ell = {'a': fr.a, 'f': fr.f}
    if type(x).__name__ == 'Nvector':
        n, z = x.normal, x.z
        m = np.array([geo.dec(b, oops.axis_of(fr)) for b in w.base]).T.copy()
        return {1: rng.choice((('f.n_E2lat_lon', dict(R, n=n)), ('f.unit', {'v': n}), ('f.mean', {'n': n}))),
                2: rng.choice((('f.n_EB_E2p_EB_E', dict(R, n=n, depth=z, **ell)), ('f.great_circle_distance', {'nA': n, 'nB': m}))),
                3: rng.choice((('f.n_E2R_EN', dict(R, n=n)), ('f.direct', dict(R, nA=n, d=0.1, az=1.0)),
                               ('f.great_circle_normal', {'nA': n, 'nB': m})))}[v]
    p = x.pvector
    far = float(np.min(np.linalg.norm(p, axis=0))) > 5e6
    return {1: ('f.p_EB_E2n_EB_E', dict(R, p=p, **ell)) if far else ('f.rad', {'args': [p]}), 2: ('f.unit', {'v': p}),
            3: rng.choice((('f.unit', {'v': p}), ('f.isclose', {'x': p, 'y': p}), ('f.deg', {'args': [p]})))}[v]


# ---------------------------------------------------------------- assignments
ATTR = {'lat': 'latitude', 'lon': 'longitude', 'p': 'pvector', 'wa': 'wander_azimuth', 'pa': 'point_a', 'pb': 'point_b'}


def assigned(w, s, j):
    """the value of an attribute the user assigns: of the shape it had"""
    rng, x, how = w.rng(j), w.obj[s['x']], s['w']
    if how in ('pa', 'pb'):
        return w.obj.get(s['y'])
    old = getattr(x, ATTR.get(how, how))
    sh = np.shape(old)

    def new(f):
        return f() if sh == () else np.array([f() for _ in range(int(np.prod(sh)))]).reshape(sh)
    if how == 'lat':
        return new(lambda: rng.uniform(-1.5, 1.5))
    if how in ('lon', 'wa', 'yaw', 'roll'):
        return new(lambda: fops.ang(rng))
    if how == 'pitch':
        return new(lambda: rng.uniform(-1.5, 1.5))
    if how == 'z':
        return new(lambda: rng.choice((0.0, rng.uniform(-500, 500), rng.uniform(-500, 500))))
    n = sh[1]
    if how == 'normal' or type(x).__name__ == 'ECEFvector' and np.all(np.linalg.norm(old, axis=0) > 5e6):
        fr = x.frame
        P = [geo.related(rng, w.base[k % len(w.base)], rng.choice(('km', w.size))) for k in range(n)]
        if how == 'p':
            P = [geo.fwd(q, rng.uniform(-500, 500), float(fr.a), float(fr.f)) for q in P]
        return np.array([geo.dec(q, oops.axis_of(fr)) for q in P]).T.copy()
    return np.array([[rng.uniform(-1e4, 1e4) for _ in range(n)] for _ in range(3)])


def assign(w, s, j):
    v = assigned(w, s, j)
    if v is None:
        return None
    setattr(w.obj[s['x']], ATTR.get(s['w'], s['w']), v)
    h = w.ref(v)
    return {'h': h} if h is not None else enc.value(v)


# ------------------------------------------------------------------ recording
def invoke(w, op, a, own=None):
    """one call of the library as an event"""
    ref = w.ref
    if own is not None:
        ref = lambda o: None if o is own else w.ref(o)
    before = surroundings()
    ev, raw = driver.run(op, a, ref)
    if surroundings() != before:
        ev['mut'] = sorted(set(ev['mut']) | {'surroundings'})
    ev['chg'] = w.changes()
    return ev, raw


def make(w, s, i):
    """one step: (event, result) or None"""
    try:
        c = call_of(w, s, i)
    except Exception as err:
        if os.environ.get('NVDEBUG'):
            raise
        return {'op': 'setup', 'for': s['do'], 'a': {}, 'r': {'none': 0}, 'x': type(err).__name__, 'msg': str(err)[:200],
                'w': [], 'mut': [], 'chg': []}, None
    if c is None:
        return None
    a = driver.complete_args(c[1])
    ev, raw = invoke(w, fops.OPS[c[0]], a)
    w.args = a
    return ev, raw


def bindable(w, s, ev, raw):
    if not s['r'] or ev['x'] != '' or ev['op'] == 'setup':
        return None
    o = raw['point'] if s['do'] == 'displace' else raw
    if s['do'] == 'closest':                                   # may be an end of the path itself, which has its name
        p = w.obj[s['x']]
        if o is p.point_a or o is p.point_b:
            return None
    return o if enc.kind(o) else None


def program(P, seed, fscs, out):
    """runs one program; calls out(event, index) for every event"""
    w = World(seed, fscs)
    line, done = {}, 0
    steps = P['prog']
    out({'op': 'new', 'a': {}, 'r': {'none': 0}, 'x': '', 'w': [], 'mut': [], 'chg': []}, 0)

    def again(i, at):
        got = make(w, steps[i - 1], i)
        if got is None:
            return None
        ev, raw = got
        out({'op': 'again', 'of': line[i], 'a': {}, 'r': ev['r'], 'x': ev['x'], 'w': ev['w'], 'mut': ev['mut'],
             'chg': ev['chg'], 'for': ev['op']}, at)
        return raw

    def overwrite(raw, at):
        driver.spoil(raw, w.args, w.ref)
        out({'op': 'scribble', 'a': {}, 'r': {'none': 0}, 'x': '', 'w': [], 'mut': [], 'chg': w.changes()}, at)
    for i, s in enumerate(steps, 1):
        if s['do'] in ('again', 'spoil'):
            if s['x'] not in line:
                continue
            raw = again(s['x'], i)
            if s['do'] == 'spoil' and raw is not None:
                overwrite(raw, i)
                again(s['x'], i)
            continue
        if s['do'] == 'set':
            if s['x'] in w.obj:
                val = assign(w, s, i)
                if val is not None:
                    out({'op': 'set', 'a': {'attr': s['w'], 'val': val}, 'r': {'none': 0}, 'x': '', 'w': [], 'mut': [],
                         'chg': w.changes(), 'ref': s['x']}, i)
            continue
        if s['do'] == 'reask':
            got = make(w, steps[s['x'] - 1], s['x']) if s['x'] in line else None
            if got is not None:
                got[0]['re'] = True
                line[i] = out(got[0], i)
            continue
        if s['do'] == 'unit':
            x = w.obj.get(s['x'])
            if x is None:
                continue
            ev, raw = invoke(w, fops.OPS['o.unit'], {'self': x})
            if ev['x'] == '':
                ev['r'] = w.encode(s['x'])
            ev['ref'] = s['x']
            out(ev, i)
            continue
        got = make(w, s, i)
        if got is None:
            continue
        ev, raw = got
        o = bindable(w, s, ev, raw)
        if o is not None:
            w.bind(s['r'], o)
            ev['ret'] = s['r']
        line[i] = out(ev, i)
    still = [i for i in P['again'] if i in line and steps[i - 1]['do'] != 'frame']
    for i in still:
        raw = again(i, len(steps))
        if raw is not None:
            overwrite(raw, len(steps))
    for i in still:
        again(i, len(steps))
    return line


ACTIONS = ('unit', 'set')


def slice_of(steps, i):
    """the steps a call depends on; those that change something come in their order"""
    makes = {s['r']: j for j, s in enumerate(steps, 1) if s['r']}
    q = steps[i - 1]['x'] if steps[i - 1]['do'] == 'reask' else i
    need, todo = set(), [q]
    while todo:
        j = todo.pop()
        if j in need:
            continue
        need.add(j)
        todo += [makes[h] for h in (steps[j - 1]['x'], steps[j - 1]['y']) if h in makes]
        objs = {steps[m - 1]['r'] for m in need}
        todo += [m for m, s in enumerate(steps, 1) if s['do'] in ACTIONS and m < i and s['x'] in objs and m not in need]
    return sorted(need - {q}) + ['ask', q]


def fresh(P, seed, fscs, i):
    w = World(seed, fscs)
    steps = P['prog']
    last = False
    for j in slice_of(steps, i):
        if j == 'ask':
            last = True
            continue
        s = steps[j - 1]
        if s['do'] == 'unit':
            if s['x'] in w.obj:
                w.obj[s['x']].unit()
            continue
        if s['do'] == 'set':
            if s['x'] in w.obj and assign(w, s, j) is None:
                return None
            continue
        got = make(w, s, j)
        if got is None:
            return None
        ev, raw = got
        if last:
            return ev
        o = bindable(w, s, ev, raw)
        if o is not None:
            w.bind(s['r'], o)


def worker(k, progs, plan, out):
    with open(os.path.join(out, 'shard%d.ndjson' % k), 'w') as fh, open(os.path.join(out, 'index%d.json' % k), 'w') as ih:
        base = 0
        for q in progs:
            P, seed = q['P'], '%s:%s' % (plan['seed'], q['id'])

            def whole():
                evs = []

                def put(ev, at):
                    evs.append((ev, at))
                    return base + len(evs)
                line = program(P, seed, plan['fscs'], put)
                return {'evs': evs, 'line': line}
            r = driver.in_child(whole)
            if 'failed' in r:
                raise SystemExit('program %s: %s' % (q['id'], r['failed']))
            evs = r['evs']
            steps = P['prog']
            rng = random.Random('fresh:%s' % seed)
            cand = [int(i) for i in r['line'] if steps[int(i) - 1]['do'] not in ('frame', 'unit', 'set')]
            for i in rng.sample(cand, min(plan['fresh'], len(cand))):
                ev = driver.in_child(lambda: fresh(P, seed, plan['fscs'], i))
                if ev is None:
                    continue
                if 'failed' in ev:
                    raise SystemExit('program %s step %d alone: %s' % (q['id'], i, ev['failed']))
                evs.append(({'op': 'fresh', 'of': r['line'][str(i)], 'a': {}, 'r': ev['r'], 'x': ev['x'], 'w': ev['w'],
                             'mut': [], 'chg': [], 'for': ev['op']}, i))
            for ev, at in evs:
                fh.write(json.dumps(ev) + '\n')
                s = steps[at - 1] if at else {'do': 'new'}
                ih.write(json.dumps({'kind': 'session', 'id': q['id'], 'step': at,
                                     'at': '%s step %d %s %s' % (q['id'], at, s['do'], s.get('w', ''))}) + '\n')
            fh.flush()
            ih.flush()
            base += len(evs)


def main():
    load()
    plan = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    K = plan['shards']
    pids = []
    for k in range(1, K + 1):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(k, plan['progs'][k - 1::K], plan, out)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids.append(pid)
    bad = 0
    for pid in pids:
        bad |= os.waitpid(pid, 0)[1]
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
