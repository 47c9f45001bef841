"""Runs scenarios against the library in /repo and records the events that the
specification Trace.tla replays.

    driver.py PLAN OUTDIR      (started by check.py)
"""
import json
import os
import random
import signal
import sys
import warnings

REPO = os.environ.get('NVECTOR_REPO', '/repo')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(REPO, 'src'))
import numpy as np                                            # noqa: E402
import enc                                                    # noqa: E402


class Late(Exception):
    pass


class BadResult(Exception):
    pass


def alarm(*_):
    raise Late()


LIMIT = 20
RAWINT = ('window', 'order', 'num', 'deg')
LISTS = ('args',)


def enc_arg(k, v, ref=None):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, str):
        return v if k not in ('x', 'y', 'self') else {'k': 'other', 'name': 'str'}
    if v is None:
        return {'k': 'other', 'name': 'None'}
    if isinstance(v, dict):
        return {i: enc_arg(i, w, ref) for i, w in v.items()}
    if k in RAWINT and isinstance(v, int):
        return v
    if k in LISTS:
        return [enc.arr(x) for x in v]
    return enc.value(v, ref)


def enc_args(a, ref=None):
    return {k: enc_arg(k, v, ref) for k, v in a.items() if not k.startswith('_')}


def enc_res(op, r, ref=None):
    f = op.fields
    if f is None:
        v = enc.value(r, ref)
        return v
    if f == 'seq':
        if not isinstance(r, (tuple, list)):
            raise BadResult()
        return {'res': [enc.arr(x) for x in r]}
    if f == 'rec':
        out = {}
        for k, v in r.items():
            out[k] = [enc.value(x, ref) for x in v] if isinstance(v, list) else \
                v if isinstance(v, str) else enc.value(v, ref)
        return out
    if f == 'printed':
        return {'said': r['said'].enc(), 'str': r['str']}
    if f == 'bools':
        return {k: bool(v) for k, v in r.items()}
    if not isinstance(r, (tuple, list)) or len(r) != len(f):
        raise BadResult()
    return {k: enc.value(x, ref) for k, x in zip(f, r)}


def place(err):
    """the function in which it was raised"""
    t = err.__traceback__
    while t.tb_next is not None:
        t = t.tb_next
    return '%s:%s' % (os.path.basename(t.tb_frame.f_code.co_filename), t.tb_frame.f_code.co_name)


# the call site of the finding of C17 (see known_findings.txt): whether it is met depends on the last bit
# of the latitudes, so other ways of doing the same computation are not compared there
GEODESIC = 'geodesic.py:_Lambda12'


def quiet(*args):
    """floating point errors go here: no warning, and not numpy's own default"""


def settings():
    """what a program has set for all its computations"""
    return (np.geterr(), np.geterrcall(), sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
            [repr(f) for f in warnings.filters], random.getstate(), np.random.get_state()[1].tobytes(),
            np.random.get_state()[2], os.getcwd(), sorted(os.environ.items()), sys.getrecursionlimit())


def run(op, a, ref=None):
    """calls the library: (event fields, raw result)"""
    ea = enc_args(a, ref)
    ev = {'op': op.name, 'x': '', 'w': []}
    raw, changed = None, False
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            with np.errstate(all='call', call=quiet):
                was = settings()
                try:
                    raw = op.call(a)
                finally:
                    changed = settings() != was
        ev['w'] = sorted({x.category.__name__ for x in ws} - ({'DeprecationWarning'} if a.get('_nm') else set()))
    except Late:
        ev['x'] = 'Timeout'
    except Exception as err:                                   # whatever the library raises
        ev['x'] = type(err).__name__
        ev['msg'] = str(err)[:200]
        ev['at'] = place(err)
    finally:
        signal.alarm(0)
    ev['r'] = {'none': 0}
    if ev['x'] == '':
        try:
            ev['r'] = enc_res(op, raw, ref)
        except (BadResult, enc.Unreadable, ValueError, TypeError, AttributeError, KeyError) as err:
            ev['x'] = 'BadResult'
            ev['msg'] = '%s: %s' % (type(err).__name__, str(err)[:200])
    try:
        after = enc_args(a, ref)
    except Exception as err:
        after = {k: None for k in ea}
    ev['mut'] = sorted(k for k in ea if after.get(k) != ea[k]) + (['settings of the program'] if changed else [])
    for k in ('isself', 'wit'):                                # set by the call
        if k in a and k not in ev['mut'] and k not in ea:
            ea[k] = after[k]
    if 'isself' in a:
        ea['isself'] = bool(a['isself'])
        ev['mut'] = [k for k in ev['mut'] if k != 'isself']
    ev['a'] = ea
    return ev, raw


def complete_args(a):
    """computes arguments that are witnesses"""
    for k in list(a):
        if callable(a[k]):
            a[k] = a[k](a)
    return a


def same_array(x, y):
    return isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x is not y and x.shape == y.shape and \
        x.dtype == y.dtype and np.array_equal(x, y)


def share_arrays(x, y):
    for k in ('normal', 'pvector', 'latitude', 'longitude', 'z'):
        if same_array(vars(x).get(k), vars(y).get(k)):
            setattr(y, k, getattr(x, k))


def share(op, a):
    """arguments that are equal become the very same array or object"""
    if op.name == 'o.eq':
        return
    ks = [k for k in a if isinstance(a[k], np.ndarray)]
    for i, k in enumerate(ks):
        for m in ks[:i]:
            if same_array(a[m], a[k]):
                a[k] = a[m]
    for x, y in (('x', 'y'), ('self', 'y')):
        if x in a and y in a and enc.kind(a[y]) in POINTS and enc.kind(a[x]) == enc.kind(a[y]):
            if repr(a[x]) == repr(a[y]):
                a[y] = a[x]
            else:
                share_arrays(a[x], a[y])
    p = a.get('self')
    if enc.kind(p) == 'GeoPath' and enc.kind(p.point_a) == enc.kind(p.point_b) in POINTS:
        if repr(p.point_a) == repr(p.point_b):
            p.point_b = p.point_a
        else:
            share_arrays(p.point_a, p.point_b)


POINTS = ('GeoPoint', 'Nvector', 'ECEFvector')


def make(op, c, rng):
    """arguments of the scenario, and a function making them in another way"""
    import oops
    if isinstance(op, oops.OOp):
        g = op.abs(rng, c)
        a = op.build(g, c)
    else:
        a, g = op.gen(rng, c), None
    if rng.random() < 0.5:
        share(op, a)
    return complete_args(a), g


# ------------------------------------------------- what happened before the call
PUBLIC = ('latitude', 'longitude', 'z', 'normal', 'pvector', 'wander_azimuth', 'yaw', 'pitch', 'roll', 'R_Ee',
          'frame', 'nvector', 'point_a', 'point_b')


def reach(x, out=None, depth=0):
    """arrays and objects that are part of an argument"""
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            reach(v, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            reach(v, out, depth + 1)
    elif enc.kind(x) is not None and depth < 6:
        out.append(x)
        for k in PUBLIC:
            try:
                reach(getattr(x, k, None), out, depth + 1)
            except Exception:
                pass
    return out


def spoil(raw, a, ref=lambda o: None):
    """what a user may do to a value he got: overwrite it, unless it is part of what he passed"""
    own = reach(a)
    keep = [m for m in own if isinstance(m, np.ndarray)]

    def walk(x, depth):
        if isinstance(x, np.ndarray):
            if not x.flags.writeable or any(np.may_share_memory(x, m) for m in keep):
                return
            if x.dtype.kind == 'f':
                x[...] = 0.125
            elif x.dtype.kind in 'bi':
                x[...] = 0
        elif isinstance(x, dict):
            for v in x.values():
                walk(v, depth + 1)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v, depth + 1)
        elif enc.kind(x) is not None and ref(x) is None and depth < 4:
            if any(x is m for m in own):
                return
            for k in PUBLIC[:5] + ('frame', 'nvector', 'point_a', 'point_b', 'R_EN') + (('R_Ee',) if depth == 0 else ()):
                try:
                    walk(getattr(x, k, None), depth + 1)
                except Exception:
                    pass
            if hasattr(x, 'normal') and hasattr(x, 'unit'):
                try:
                    x.unit()
                except Exception:
                    pass
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        walk(raw, 0)


def other_number(rng, v):
    return rng.choice((v + 4e-4, v - 4e-4, v * (1 + 1e-6) + 1e-9, v + 1.0, -v, v * (1 + 1e-3) + 1e-7, v + 3e-8))


def perturb(a, rng, frames=True, every=False):
    """changes one thing (or everything) about the arguments; the result undoes it"""
    spots = []

    def look(holder, k, v, depth):
        if k in ('R', 'R_Ee'):
            return
        if isinstance(v, (bool, np.bool_)):
            spots.append((holder, k, not v))
        elif isinstance(v, (int, float, np.number)):
            spots.append((holder, k, other_number(rng, float(v))))
        elif isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
            w = v.copy()
            i = rng.randrange(w.size)
            w.flat[i] = other_number(rng, float(w.flat[i]))
            spots.append((holder, k, w))
        elif enc.kind(v) is not None and depth < 5:
            if enc.kind(v) == 'FrameE' and not frames:
                return
            for m in PUBLIC + ('a', 'f'):
                if m in getattr(v, '__dict__', {}):
                    look(v, m, vars(v)[m], depth + 1)
    for k in list(a):
        if not k.startswith('_'):
            look(a, k, a[k], 0)
    undo = []
    for h, k, v in spots if every else [rng.choice(spots)] if spots else []:
        d = h if isinstance(h, dict) else vars(h)
        undo.append((h, k, d[k]))
        put(h, k, v)
    return lambda: [put(*u) for u in reversed(undo)]


def put(h, k, v):
    if isinstance(h, dict):
        h[k] = v
    else:
        setattr(h, k, v)


def quietly(op, a):
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                return op.call(a)
    except Exception:
        return None
    finally:
        signal.alarm(0)


def before(op, c, seed, rng, kinds):
    """calls made before the one that counts; their results are overwritten"""
    for kind in kinds:
        try:
            a, _ = make(op, c, random.Random(seed + (':other' if kind == 'other' else '')))
            if kind == 'near':
                perturb(a, rng)
        except Exception:
            continue
        spoil(quietly(op, a), a)
        del a


def history(item, plan):
    """a call in a fresh process, and in one that made other calls before, and once more"""
    import fops
    op = fops.OPS[item['op']]
    c = item['c']
    seed = '%s:%s:%s' % (plan['seed'], item['op'], item['i'])
    rng = random.Random('history:' + seed)

    def alone():
        a, _ = make(op, c, random.Random(seed))
        return run(op, a)[0]

    def late():
        before(op, c, seed, rng, [rng.choice(('near', 'near', 'other', 'same')) for _ in range(rng.choice((1, 2, 3)))])
        a, _ = make(op, c, random.Random(seed))
        e1, raw = run(op, a)
        if op.name != 'o.unit':
            spoil(raw, a)
            del raw
            e2, _ = run(op, a)                # the same arguments once more
        else:
            e2 = None
        del a
        a, _ = make(op, c, random.Random(seed))
        e3, raw = run(op, a)
        es = [e1, e2, e3]
        if op.name != 'o.unit':
            # a call while attributes and arguments are others, which then become what they are here
            for every in (True, False):
                a, _ = make(op, c, random.Random(seed))
                undo = perturb(a, rng, frames=False, every=every)
                quietly(op, a)
                undo()
                es.append(run(op, a)[0])
        return [e for e in es if e]
    first = in_child(alone)
    if 'failed' in first:
        return [{'op': 'setup', 'for': op.name, 'a': {}, 'r': {'none': 0}, 'x': 'setup', 'msg': first['failed'][:200],
                 'w': [], 'mut': [], 'chg': []}]
    out = [dict(first, chg=[])]
    rest = in_child(late)
    if 'failed' in rest:
        return out + [{'op': 'setup', 'for': op.name, 'a': {}, 'r': {'none': 0}, 'x': 'setup', 'msg': rest['failed'][:200],
                       'w': [], 'mut': [], 'chg': []}]
    for e in rest:
        out.append({'op': 'again', 'back': len(out), 'a': {}, 'r': e['r'], 'x': e['x'], 'w': e['w'], 'mut': e['mut'], 'chg': [],
                    'for': op.name})
    return out


def in_child(f):
    """result of f() computed in a process of its own"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = json.dumps(f()).encode()
        except BaseException as err:
            if os.environ.get('NVDEBUG'):
                import traceback
                traceback.print_exc()
            data = json.dumps({'failed': '%s: %s' % (type(err).__name__, err)}).encode()
        with os.fdopen(wr, 'wb') as fh:
            fh.write(data)
        os._exit(0)
    os.close(wr)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else {'failed': 'no answer'}


# ---------------------------------------------------------------------- twins
def turned(op, g, dlon):
    import oops
    g = dict(g)
    for k in 'ABCD':
        if k in g and isinstance(g[k], list) and g[k] and isinstance(g[k][0], tuple):
            g[k] = [oops.turn(p, dlon) for p in g[k]]
    if 'v' in g and op.name == 'o.change_frame':
        g['v'] = [oops.turn((v, 0, None), dlon)[0] for v in g['v']]
    return g


def twins(op, c, seed, a, g):
    import oops
    rng = random.Random('twin:' + seed)
    dlon = rng.choice((rng.uniform(-3, 3), np.pi / 2, np.pi, -np.pi / 2))
    out = []
    if isinstance(op, oops.OOp):
        for t in op.twins:
            if t == 'axes' and 'ax' in c:
                c2 = dict(c, ax='E' if c['ax'] != 'E' else 'e')
                out.append((t, op.name, op.build(g, c2)))
            elif t == 'turn':
                out.append((t, op.name, op.build(turned(op, g, dlon), c)))
            elif t == 'deg' and 'deg' in c:
                c2 = dict(c, deg='yes' if c['deg'] != 'yes' else 'no')
                out.append((t, op.name, op.build(g, c2)))
            elif t == 'kind':
                ks = [k for k in ('ka', 'kb', 'kc', 'k') if k in c and c[k] in oops.OTHER]
                for kk in ks if len(ks) < 3 else rng.sample(ks, 2):
                    c2 = dict(c)
                    c2[kk] = rng.choice([x for x in 'GNE' if x != c[kk]])
                    if 'void' in a and (c2.get('ka'), c2.get('kb')) != ('N', 'N'):
                        if c['rel'] == 'anti' and c['t'] == 'half':
                            continue
                    out.append((t, op.name, op.build(g, c2)))
    else:
        if op.axes and c.get('ax') in ('e', 'E', 'dflt'):
            c2 = dict(c, ax='E' if c['ax'] != 'E' else 'e')
            out.append(('axes', op.name, op.gen(random.Random(seed), c2)))
        cols = [k for k, r in op.roles.items() if r == 'col' and k in a]
        if cols and c.get('form') != 'int':
            ax = c.get('ax', 'e')
            cd, sd = np.cos(dlon), np.sin(dlon)
            m = np.array([[1, 0, 0], [0, cd, -sd], [0, sd, cd]]) if ax == 'E' else \
                np.array([[cd, -sd, 0], [sd, cd, 0], [0, 0, 1]])
            b = op.gen(random.Random(seed), c)
            for k in cols:
                b[k] = m.dot(np.asarray(b[k], dtype=float))
            out.append(('turn', op.name, b))
    return out


# ------------------------------------------------------------ element-wise parts
def part(op, a, i):
    import oops
    b = {}
    for k, v in a.items():
        if k.startswith('_') or isinstance(v, (str, bool)):
            b[k] = v
        elif enc.kind(v) is not None:
            b[k] = oops.slice_obj(v, i) if oops.obj_len(v) > 1 else v
        elif op.roles.get(k) == 'col':
            m = np.asarray(v)
            b[k] = m[:, :1].copy() if m.shape[1] == 1 else m[:, i:i + 1].copy()
        elif op.roles.get(k) == 'num':
            m = np.asarray(v)
            b[k] = v if m.ndim == 0 else m.ravel()[0 if m.size == 1 else i]
        elif op.roles.get(k) == 'mat':
            m = np.asarray(v)
            b[k] = v if m.ndim < 3 else m[:, :, i].copy()
        elif k in ('wit', 'isself'):
            continue
        else:
            b[k] = v
    return b


def length(op, a):
    import oops
    n = 1
    for k, v in a.items():
        if k.startswith('_') or isinstance(v, (str, bool)):
            continue
        if enc.kind(v) is not None:
            n = max(n, oops.obj_len(v))
        elif op.roles.get(k) == 'col':
            n = max(n, np.asarray(v).shape[1])
        elif op.roles.get(k) == 'num':
            n = max(n, np.size(v))
        elif op.roles.get(k) == 'mat':
            n = max(n, np.shape(v)[2] if np.ndim(v) == 3 else 1)
    return n


# ------------------------------------------------------------- missing elements
def hole(op, a, n, i, rng):
    """puts nan into element i of one argument"""
    spots = []

    def look(holder, k, v, depth):
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.ndim and v.shape[-1] == n:
            w = np.array(v, order='K')
            w[..., i] = np.nan
            spots.append((holder, k, w))
        elif enc.kind(v) in POINTS + ('GeoPath', 'Pvector') and depth < 3:
            for m in ('latitude', 'longitude', 'z', 'normal', 'pvector', 'point_a', 'point_b'):
                if m in getattr(v, '__dict__', {}):
                    look(v, m, vars(v)[m], depth + 1)
    for k in list(a):
        if op.roles.get(k) in ('col', 'num', 'mat') or enc.kind(a[k]) is not None:
            look(a, k, a[k], 0)
    if spots:
        put(*rng.choice(spots))
    return bool(spots)


def filled(r, r0, n, i):
    """r with element i of r0"""
    if isinstance(r, dict) and isinstance(r0, dict):
        if 'sh' in r and 'sh' in r0:
            if r['sh'] == r0['sh'] and r['sh'] and r['sh'][-1] == n:
                return dict(r, **{k: [y if j % n == i else x for j, (x, y) in enumerate(zip(r[k], r0[k]))]
                                  for k in ('v', 'b') if k in r and k in r0})
            return r
        return {k: filled(r[k], r0[k], n, i) if k in r0 else r[k] for k in r}
    if isinstance(r, list) and isinstance(r0, list) and len(r) == len(r0):
        return [filled(x, y, n, i) for x, y in zip(r, r0)]
    return r


# ------------------------------------------------------- functions behind methods
def scenario(item, plan):
    import fops
    import oops                                                # noqa: F401
    op = fops.OPS[item['op']]
    c = item['c']
    seed = '%s:%s:%s' % (plan['seed'], item['op'], item['i'])
    rng = random.Random('before:' + seed)
    if rng.random() < 0.6:
        before(op, c, seed, rng, [rng.choice(('near', 'near', 'other', 'same')) for _ in range(rng.choice((1, 1, 2, 3)))])
    try:
        a, g = make(op, c, random.Random(seed))
    except Exception as err:
        return {'op': 'setup', 'for': op.name, 'a': {}, 'r': {'none': 0}, 'x': type(err).__name__,
                'msg': str(err)[:200], 'w': [], 'mut': [], 'chg': []}
    ev, _ = run(op, a)
    ev['chg'] = []
    want = plan.get('want', ())
    if any(t in want for t in ('axes', 'turn', 'kind', 'deg', 'function')):
        tw = []
        try:
            for t, name, b in twins(op, c, seed, a, g):
                if t in want:
                    e2, _ = run(fops.OPS[name], complete_args(b))
                    if e2.get('at') != GEODESIC:
                        tw.append(dict(e2, t=t))
            if 'function' in want:
                import func
                for name, b in func.counterpart(op, g, c, a):
                    e2, _ = run(fops.OPS[name], b)
                    if e2.get('at') != GEODESIC:
                        tw.append(dict(e2, t='function'))
        except Exception as err:
            ev['tws'] = '%s: %s' % (type(err).__name__, str(err)[:200])
            if os.environ.get('NVDEBUG'):
                raise
        ev['tw'] = tw if ev.get('at') != GEODESIC else []
    if 'hole' in want and op.elementwise and not ev['x']:
        n = length(op, a)
        if n > 1:
            b, _ = make(op, c, random.Random(seed))
            i = random.Random('hole:' + seed).randrange(n)
            if hole(op, b, n, i, random.Random('spot:' + seed)):
                e2, _ = run(op, b)
                if not e2['x'] or not run(op, part(op, b, i))[0]['x']:   # an error of that element is one of all
                    ev['hole'] = {'r': filled(e2['r'], ev['r'], n, i), 'x': e2['x']}
    if 'parts' in want and op.elementwise:
        n = length(op, a)
        if n > 1:
            a2, _ = make(op, c, random.Random(seed))
            ps = []
            for i in range(n):
                b = part(op, a2, i)
                if 'wit' in a2:
                    b['wit'] = oops.witness
                e2, _ = run(op, complete_args(b))
                ps.append(e2)
            ev['parts'] = ps
    return ev


def worker(k, items, plan, out):
    with open(os.path.join(out, 'shard%d.ndjson' % k), 'w') as fh, \
            open(os.path.join(out, 'index%d.json' % k), 'w') as ih:
        n = 0
        for it in items:
            for ev in history(it, plan) if 'history' in plan.get('want', ()) else [scenario(it, plan)]:
                n += 1
                if 'back' in ev:
                    ev['of'] = n - ev.pop('back')
                fh.write(json.dumps(ev) + '\n')
                ih.write(json.dumps(it) + '\n')
            fh.flush()
            ih.flush()


def main():
    plan = json.load(open(sys.argv[1]))
    out = sys.argv[2]
    import nvector
    assert os.path.realpath(nvector.__file__).startswith(os.path.realpath(os.path.join(REPO, 'src')) + os.sep), nvector.__file__
    import fops                                                # noqa: F401
    import oops                                                # noqa: F401
    K = plan['shards']
    pids = []
    if K == 1:
        worker(1, plan['items'], plan, out)
        return
    for k in range(1, K + 1):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(k, plan['items'][k - 1::K], plan, out)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    bad = 0
    for pid in pids:
        bad |= os.waitpid(pid, 0)[1]
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
