"""Programs generated from Session.tla, run on the library and checked by TLC."""
import json
import os
import random
import re
import check
import props

FUNCTIONS = sorted({op for p in props.PROPS.values() for op in p.get('ops', ()) if op.startswith('f.')})
PROG = re.compile(r'<<\s*"PROG",\s*"(.*)"\s*>>')


def generate(num, seed, work):
    """num complete programs, by simulating Session.tla"""
    os.makedirs(work, exist_ok=True)
    code, out = check.tlc('Session', {}, work, workers=1, heap='2g', cfg='SessionGen',
                          extra=['-simulate', 'num=%d' % num, '-depth', '300', '-seed', str(seed)])
    if code != 0:
        raise check.Broken('generating programs failed:\n' + out[-2000:])
    return [json.loads(m.replace('\\"', '"')) for m in PROG.findall(out)]


def function_scenarios(seed):
    """some scenarios of every function"""
    salt = seed * 1000 % 100000
    ops = FUNCTIONS
    files = check.scenarios(ops, [salt])
    out = {}
    rng = random.Random('fscs:%s' % seed)
    for op in ops:
        scs = json.load(open(files[op, salt]))
        out[op] = rng.sample(scs, min(30, len(scs)))
    return out


def run(progs, seed, fscs, fresh, work, res, focus, shards=16):
    os.makedirs(work, exist_ok=True)
    K = max(1, min(shards, len(progs)))
    plan = {'seed': seed, 'progs': progs, 'fscs': fscs, 'fresh': fresh, 'shards': K}
    pf = os.path.join(work, 'plan.json')
    json.dump(plan, open(pf, 'w'))
    e = check.python('session_driver.py', pf, work, res)
    if e:
        return e
    res.events += check.recorded(work, K)
    check.check_traces(work, K, res, focus)
    return None


def check_prop(prop, tier, seed, work, res, viol, p):
    cfg = dict(p['session'])
    n = cfg.get(tier, 40 if tier == 'quick' else 600)
    fscs = function_scenarios(seed)
    total = 0
    for b in range(0, n, 120):
        m = min(120, n - b)
        if b and check.left() < 400:
            break
        d = os.path.join(work, 'b%d' % b)
        progs = [{'id': '%d.%d' % (b, i), 'P': P} for i, P in enumerate(generate(m, seed * 1000 + b, d))]
        total += len(progs)
        n0 = len(res.fails)
        e = run(progs, seed, fscs, cfg.get('fresh', 6), d, res, p.get('focus', 'all'))
        if e:
            return e
        by = {q['id']: q['P'] for q in progs}
        for f in check.decide(prop, res.fails[n0:]):
            ev, it = check.event_of(d, f[0], f[1])
            viol.append((f, ev, dict(it, P=by[it['id']], seed=seed, focus=p.get('focus', 'all'), fresh=cfg.get('fresh', 6))))
    res.extra['programs'] = total
    return None


def replay(rp, work, res):
    e = run([{'id': rp['id'], 'P': rp['P']}], rp['seed'], function_scenarios(rp['seed']), rp['fresh'],
            os.path.join(work, 'r'), res, rp['focus'], shards=1)
    if e:
        raise check.Broken(e)
