#!/usr/bin/env python3
"""Decides one property: scenarios enumerated from the specification are run
on the library in /repo, and TLC checks the recorded runs against it.

    check.py PROPERTY [--tier quick|thorough] [--replay FILE]
"""
import argparse
import concurrent.futures
import glob
import hashlib
import itertools
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.environ.get('NVECTOR_BUILD', os.path.join(ROOT, 'build'))
REPO = os.environ.get('NVECTOR_REPO', '/repo')
PY = os.environ.get('NVECTOR_PYTHON', '/opt/venv/bin/python')
TLA = '/opt/veriftools/tla/tla2tools.jar'
COMMUNITY = '/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
import props                                                   # noqa: E402


LONGER = {'o.eq': (6, '130'), 'o.repr': (2, '1200'), 'f.mean': (1, '1200')}
LONG = 1                                                        # arrays of that kind per operation
BUDGET = {'quick': 780, 'thorough': 3000}                       # seconds a check takes at most
START = time.time()
TIER = ['quick']


class Broken(Exception):
    """the check cannot say anything"""


def left(share=1.0):
    """seconds left for the next thing, at least a little"""
    return max(30, share * (BUDGET.get(TIER[0], 3000) - (time.time() - START)))


def python(script, plan, work, res, share=0.6):
    """runs a driver on the library; text of an error or None"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', NVECTOR_REPO=REPO,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    limit = left(share)
    with open(os.path.join(work, 'driver.log'), 'w') as log:
        p = subprocess.Popen([PY, os.path.join(HERE, script), plan, work], env=env, stdout=log, stderr=log,
                             start_new_session=True)
        try:
            code = p.wait(limit)
        except subprocess.TimeoutExpired:                      # what has been recorded is checked all the same
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            code = 0
            res.incomplete = '%s stopped after %d s' % (script, limit)
    return '%s failed: %s' % (script, open(os.path.join(work, 'driver.log'), errors='replace').read()[-3000:]) if code else None


def recorded(work, K):
    """number of events recorded; drops what is only half written"""
    n = 0
    for k in range(1, K + 1):
        ls = []
        for f in ('shard%d.ndjson' % k, 'index%d.json' % k):
            f = os.path.join(work, f)
            ls.append((f, open(f).read().split('\n')[:-1] if os.path.exists(f) else []))
        m = min(len(x) for _, x in ls)
        for f, x in ls:
            if len(x) > m or not os.path.exists(f) or (x and open(f).read()[-1:] != '\n'):
                open(f, 'w').write(''.join(t + '\n' for t in x[:m]))
        n += m
    return n


def build_override():
    """the TLC overrides, compiled once per version of their source"""
    src = sorted(glob.glob(os.path.join(ROOT, 'java', '*.java')))
    h = hashlib.sha1(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:12]
    out = os.path.join(BUILD, 'classes-' + h)
    if not os.path.exists(os.path.join(out, 'built')):
        tmp = '%s.%d' % (out, os.getpid())
        os.makedirs(tmp, exist_ok=True)
        subprocess.run(['javac', '-cp', TLA, '-d', tmp] + src, check=True)
        open(os.path.join(tmp, 'built'), 'w').close()
        try:
            os.rename(tmp, out)
        except OSError:                                        # somebody else was first
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def tlc(module, env, work, workers=8, heap='6g', timeout=None, extra=(), cfg=None, accelerated=True):
    """runs TLC; returns (exit status, output)"""
    classes = build_override()
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC',
           '-cp', ':'.join((classes, TLA, COMMUNITY) if accelerated else (TLA, COMMUNITY)), 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE', '-nowarning',
           '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    e = dict(os.environ, **env)
    log = os.path.join(work, module + '.log')
    with open(log, 'w') as fh:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout or left())
            code = p.returncode
        except subprocess.TimeoutExpired:
            code = -1
    return code, open(log, errors='replace').read()


def spec_hash():
    h = hashlib.sha1()
    for n in ('Scenarios.tla', 'Scenarios.cfg'):
        h.update(open(os.path.join(SPEC, n), 'rb').read())
    return h.hexdigest()[:12]


def scenarios(ops, salts):
    """TLC's scenario enumeration of these operations (kept in the build directory): {(operation, salt): file}"""
    want = {'ops': sorted(ops), 'salts': list(salts)}
    h = hashlib.sha1((spec_hash() + json.dumps(want)).encode()).hexdigest()[:12]
    d = os.path.join(BUILD, 'scenarios-' + h)
    if not os.path.exists(os.path.join(d, 'done')):
        tmp = d + '.%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        json.dump(want, open(os.path.join(tmp, 'wanted'), 'w'))
        code, out = tlc('Scenarios', {'WANTED': os.path.join(tmp, 'wanted'), 'OUT': tmp}, tmp)
        if code != 0:
            raise Broken('scenario enumeration failed:\n' + out[-2000:])
        shutil.rmtree(os.path.join(tmp, 'meta'), ignore_errors=True)
        open(os.path.join(tmp, 'done'), 'w').close()
        if os.path.exists(d):
            shutil.rmtree(d, ignore_errors=True)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return {(o, s): os.path.join(d, '%s-%d.json' % (o, s)) for o in ops for s in salts}


def tuples_of(c, n):
    ks = sorted(c)
    return [tuple((k, c[k]) for k in s) for s in itertools.combinations(ks, min(n, len(ks)))]


def reduce_cover(scs, seed, size=0):
    """a subset of the scenarios that still has every pair of classes, and up to
    `size` in all with those that add most triples of classes"""
    rng = random.Random(seed)
    order = list(range(len(scs)))
    rng.shuffle(order)
    ps = [tuples_of(c, 2) for c in scs]
    seen, keep = set(), []
    # greedy in several passes: rich scenarios first
    for need in (0.5, 0.25, 0.1, 0.0):
        for i in order:
            new = [p for p in ps[i] if p not in seen]
            if new and len(new) >= need * len(ps[i]):
                keep.append(i)
                seen.update(new)
    extra = size - len(keep)
    if extra > 0:
        got = set(keep)
        ts = [tuples_of(c, 3) for c in scs]
        seen = {t for i in keep for t in ts[i]}
        for need in (0.5, 0.3, 0.15, 0.05, 0.0):
            for i in order:
                if extra > 0 and i not in got:
                    new = [t for t in ts[i] if t not in seen]
                    if new and len(new) >= need * len(ts[i]):
                        got.add(i)
                        keep.append(i)
                        seen.update(new)
                        extra -= 1
    return [scs[i] for i in keep]


def plan_items(prop, tier, seed):
    """the scenarios to run for this property and tier"""
    p = props.PROPS[prop]
    items = []
    rounds = p.get(tier, {}).get('rounds', 1 if tier == 'quick' else 6)
    limit = p.get(tier, {}).get('limit')
    target = p.get(tier, {}).get('target', 1500 if tier == 'quick' and not limit and 'want' not in p else 0)
    salts = [(seed * 1000 + r) % 100000 for r in range(rounds)]
    files = scenarios(p['ops'], salts)
    for salt in salts:
        for op in p['ops']:
            scs = json.load(open(files[op, salt]))
            sel = p.get('select')
            if sel:
                scs = [c for c in scs if sel(op, c)]
            if tier == 'quick' or p.get('reduce'):
                extra = target // len(p['ops']) // rounds
                scs = reduce_cover(scs, '%d:%s' % (salt, op), extra)
            lim = limit(op) if callable(limit) else limit
            if lim and len(scs) > lim:
                scs = scs[:lim]
            for j in [j for j, c in enumerate(scs) if c.get('n') == '12'][:LONGER.get(op, (LONG,))[0]]:
                scs[j] = dict(scs[j], n=LONGER.get(op, (LONG, '130'))[1])      # some arrays that are much longer
            rep = p.get('repeat', {}).get(op, 1)
            for q in range(rep):
                items += [{'op': op, 'c': c, 'i': '%d.%d.%d' % (salt, q, j)} for j, c in enumerate(scs)]
    items += [{'op': op, 'c': c, 'i': 'fixed.%d' % j} for j, (op, c) in enumerate(p.get('fixed', ()))]
    random.Random(seed).shuffle(items)
    return items


FAIL = re.compile(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*"([^"]*)",\s*"([^"]*)",\s*(-?\d+)\s*>>')
STAT = re.compile(r'<<\s*"STAT",\s*"([^"]*)",\s*(\d+),\s*(\d+)\s*>>')
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


ASSUMPTIONS = [
    'TLC evaluates the specification correctly; the Java overrides of BigInt and Real compute what the TLA+ definitions '
    'say (compared with each other by the check of C28)',
    'the inputs run are the scenario classes of Scenarios.tla with concrete numbers drawn from VERIF_SEED, not all doubles',
    'numbers are accepted within the tolerance stated with each clause (a small multiple of the rounding of the '
    'documented formula), so an error smaller than that is not seen',
]


class Result:
    def __init__(self):
        self.extra = {}
        self.incomplete = None
        self.fails, self.stats, self.events, self.states, self.trans = [], {}, 0, 0, 0
        self.samples, self.malformed, self.incidents = [], [], []

    def add_stats(self, out):
        for k, n, q in STAT.findall(out):
            o = self.stats.get(k, (0, 0))
            self.stats[k] = (o[0] + int(n), max(o[1], int(q)))


def replay_shards(work, K, focus='all'):
    return tlc('Trace', {'TRACES': work, 'SHARDS': str(K), 'FOCUS': focus}, work, workers=min(8, K), heap='12g')


def check_traces(work, K, res, focus='all'):
    """TLC on the recorded shards; isolates events TLC cannot interpret"""
    for turn in itertools.count(1):
        code, out = replay_shards(work, K, focus)
        if code == 0:
            break
        if 'Parsing or semantic analysis failed' in out or 'Semantic errors' in out:
            raise Broken('specification rejected:\n' + out[-3000:])
        if code == -1:
            res.incomplete = 'TLC stopped after %d s' % (time.time() - START)
            break
        bad = isolate(work, K, focus)
        if not bad:
            raise Broken('TLC failed (%d):\n%s' % (code, out[-3000:]))
        for k, l in bad:
            path = os.path.join(work, 'shard%d.ndjson' % k)
            lines = open(path).read().splitlines()
            ev = json.loads(lines[l - 1])
            res.malformed.append((k, l, ev['op']))
            lines[l - 1] = json.dumps({'op': 'unread' if ev['op'] == 'again' else 'setup', 'for': ev['op'], 'a': {}, 'r': {'none': 0}, 'x': 'malformed',
                                       'w': [], 'mut': [], 'chg': []})
            if turn >= 2:                                      # enough is wrong: leave the rest of the shard
                del lines[l:]
            open(path, 'w').write('\n'.join(lines) + '\n')
    for k, l, op, clause, q in FAIL.findall(out):
        res.fails.append((int(k), int(l), op, clause, int(q)))
    res.add_stats(out)
    m = STATES.search(out)
    if m:
        res.trans += int(m.group(1))
        res.states += int(m.group(2))


def isolate(work, K, focus):
    """the event at which each shard stops TLC (run one shard at a time)"""
    def one(k):
        f = os.path.join(work, 'shard%d.ndjson' % k)
        if not os.path.getsize(f):
            return None
        sub = os.path.join(work, 'one%d' % k)
        shutil.rmtree(sub, ignore_errors=True)
        os.makedirs(sub)
        shutil.copy(f, os.path.join(sub, 'shard1.ndjson'))
        code, o = tlc('Trace', {'TRACES': sub, 'SHARDS': '1', 'FOCUS': focus}, sub, workers=1, heap='2g', timeout=min(400, left()))
        shutil.rmtree(sub, ignore_errors=True)
        m = re.findall(r'/\\ l = (\d+)', o)
        return (k, int(m[-1]) if m else 1) if code else None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return [x for x in ex.map(one, range(1, K + 1)) if x]


def run_plan(items, seed, want, work, res, shards=16, focus='all'):
    os.makedirs(work, exist_ok=True)
    K = max(1, min(shards, len(items) // 4 or 1))
    plan = {'seed': seed, 'want': list(want), 'shards': K, 'items': items}
    pf = os.path.join(work, 'plan.json')
    json.dump(plan, open(pf, 'w'))
    e = python('driver.py', pf, work, res)
    if e:
        return e
    res.events += recorded(work, K)
    if len(res.samples) < 4:
        res.samples += samples(work, 4)
    check_traces(work, K, res, focus)
    return None


def number(d):
    if d[2] >= 90000:
        return {90000: 'nan', 90001: 'inf', 90002: '-inf'}[d[2]]
    return repr(math.ldexp(d[0] * 134217728 + d[1], d[2]))


def readable(x):
    """a recorded value with its numbers as decimal text"""
    if isinstance(x, dict):
        if 'sh' in x and 'v' in x:
            v = [number(t) for t in x['v'][:12]] + (['...'] if len(x['v']) > 12 else [])
            return {'shape': x['sh'], 'values': ' '.join(v)}
        return {k: readable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [readable(v) for v in x[:6]]
    return x


def samples(work, n):
    out = []
    for line in itertools.islice(open(os.path.join(work, 'shard1.ndjson')), n):
        e = json.loads(line)
        out.append({k: readable(e[k]) for k in ('op', 'a', 'r', 'x') if k in e})
    return out


def event_of(work, k, l):
    lines = open(os.path.join(work, 'shard%d.ndjson' % k)).read().splitlines()
    idx = open(os.path.join(work, 'index%d.json' % k)).read().splitlines()
    return json.loads(lines[l - 1]), json.loads(idx[l - 1])


def signature(op, clause, c):
    return {'op': op, 'clause': clause, 'c': c}


def known(prop):
    """entries of known_findings.txt for the property: list of dicts to match"""
    out = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('finding:'):
                d = json.loads(line[len('finding:'):])
                if d['property'] == prop:
                    out.append(d)
    return out


def matches(d, op, clause, c, ev):
    return d.get('op') in (None, op) and d.get('clause') in (None, clause) and \
        all(ev.get(k) == d[k] for k in ('x', 'msg', 'at') if k in d) and \
        all(c.get(k) in (v if isinstance(v, list) else [v]) for k, v in d.get('c', {}).items())


def decide(prop, fails):
    """which unmet obligations are violations of this property"""
    return [f for f in fails if props.counts(prop, f[2], f[3])]


def explore(prop, p, args, seed, work, res, viol, errs):
    """scenarios, programs, and models of one property"""
    n = 0
    if p.get('ops'):
        items = plan_items(prop, args.tier, seed)
        step = 6000                                            # scenarios per TLC run
        parts = -(-len(items) // step)
        for b in range(parts):
            if b and left() < (900 if p.get('session') else 600):
                res.extra['batches_left_out'] = parts - b
                break
            d = os.path.join(work, 'b%d' % b)
            n = len(res.fails)
            e = run_plan(items[b * step:(b + 1) * step], seed, p.get('want', ()), d, res, focus=p.get('focus', 'all'))
            if e:
                errs.append(e)
                break
            for f in decide(prop, res.fails[n:]):
                ev, it = event_of(d, f[0], f[1])
                viol.append((f, ev, it))
            if not args.keep:
                shutil.rmtree(d, ignore_errors=True)
    if p.get('session') and left() > 120:
        import sessions
        e = sessions.check_prop(prop, args.tier, seed, os.path.join(work, 's'), res, viol, p)
        if e:
            errs.append(e)
    if not viol:                                               # the specification is the same whatever the code is
        import models
        e = models.check_prop(sys.modules[__name__], prop, args.tier, os.path.join(work, 'm'), res)
        if e:
            errs.append(e)
    if res.incomplete:
        errs.append(res.incomplete)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--rounds', type=int)
    args = ap.parse_args()
    TIER[0] = 'quick' if args.replay or args.setup else args.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if args.setup:
        build_override()
        for m in ('Scenarios', 'Trace', 'Laws', 'Session', 'Kernel'):
            subprocess.run(['java', '-cp', TLA + ':' + COMMUNITY, 'tla2sany.SANY', m + '.tla'], cwd=SPEC, check=True,
                           stdout=subprocess.DEVNULL)
        return
    prop = args.prop
    p = props.PROPS[prop]
    if args.rounds:
        p.setdefault(args.tier, {})['rounds'] = args.rounds
    work = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = Result()
    viol, errs = [], []
    if args.replay:
        rp = json.load(open(args.replay))
        if rp.get('kind') == 'session':
            import sessions
            sessions.replay(rp, work, res)
        else:
            e = run_plan([rp['item']], rp['seed'], rp['want'], os.path.join(work, 'a'), res, shards=1)
            if e:
                errs.append(e)
    else:
        try:
            explore(prop, p, args, seed, work, res, viol, errs)
        except Broken as e:
            errs.append(str(e))
    if args.replay:
        for f in res.fails:
            print('unmet: op=%s clause=%s q=%d' % (f[2], f[3], f[4]))
        sys.exit(1 if decide(prop, res.fails) else 0)
    # ------------------------------------------------------------ report
    fk = known(prop)
    seen_known, new = {}, []
    for f, ev, it in viol:
        k = next((i for i, d in enumerate(fk) if matches(d, f[2], f[3], it.get('c', {}), ev)), None)
        if k is None:
            new.append((f, ev, it))
        else:
            seen_known[k] = seen_known.get(k, 0) + 1
    for i in range(len(fk)):
        if i in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, fk[i]['what']))
    clauses = {k: v for k, v in res.stats.items()}
    nclause = sum(v[0] for v in clauses.values())
    mine = {k: v for k, v in clauses.items() if props.counts(prop, *k.split('/', 1))}
    coverage = {
        'states': res.states, 'transitions': res.trans,
        'traces_validated_against_impl': res.events,
        'samples': res.samples[:4],
        'obligations_evaluated': nclause,
        'own_obligations': {k: {'evaluated': v[0], 'worst_permille_of_tolerance': v[1]} for k, v in sorted(mine.items())},
        'unmet_obligations_of_other_properties':
            sorted({'%s/%s' % (f[2], f[3]) for f in res.fails if not props.counts(prop, f[2], f[3])}),
        'complete': not errs,
    }
    coverage.update(res.extra)
    ev = {'property': prop, 'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'model_checking', 'coverage': coverage, 'assumptions': ASSUMPTIONS,
          'wall_s': round(time.time() - t0, 1), 'violations': len(new)}
    evdir = os.environ.get('NVECTOR_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    if new:
        rd = os.path.join(BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        groups = {}
        for f, e, it in new:
            groups.setdefault((f[2], f[3]), []).append((f, e, it))
        n = 0
        for (op, clause), g in sorted(groups.items()):
            f, e, it = g[0]
            path = os.path.join(rd, '%s-%d.json' % (prop, n))
            n += 1
            if it.get('kind') == 'session':
                json.dump(dict(it, property=prop, clause=clause, event=e), open(path, 'w'), indent=1)
            else:
                json.dump({'property': prop, 'op': op, 'clause': clause, 'q': f[4], 'item': it, 'seed': seed,
                           'want': list(p.get('want', ())), 'event': e}, open(path, 'w'), indent=1)
            print('unmet: %s/%s x%d, e.g. scenario %s exception=%r %s' % (op, clause, len(g), json.dumps(it.get('c', it.get('at'))), e.get('x'), e.get('msg', '')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
    for e in errs:
        print('ERROR', e)
    if not args.keep:
        shutil.rmtree(work, ignore_errors=True)
    print('%s: %d events, %d obligations (%d of this property), %d states, %.1f s' %
          (prop, res.events, nclause, sum(v[0] for v in mine.values()), res.states, time.time() - t0))
    return 1 if new else 2 if errs else 0


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    try:
        sys.exit(main())
    except Broken as err:
        print('ERROR', err)
        sys.exit(2)
