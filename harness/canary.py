#!/usr/bin/env python3
"""How sharp are the obligations?  Records runs of the library, changes one number
(or flag) of each recorded result, and lets TLC judge the changed recordings.

    canary.py PROPERTY [REL] [N]     prints, per operation and field, how many changes were accepted

Changes that are accepted are either within the stated tolerance of a badly
conditioned result or obligations that are missing.
"""
import collections
import json
import math
import os
import random
import re
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check                                                   # noqa: E402
import props                                                   # noqa: E402


def split(x):
    """double -> [hi, lo, e] as recorded"""
    if x == 0:
        return [0, 0, 0]
    m, e = math.frexp(abs(x))
    n = int(m * 2 ** 53)
    hi, lo = n >> 27, n & (2 ** 27 - 1)
    return [hi, lo, e - 53] if x > 0 else [-hi, -lo, e - 53]


def join(d):
    return math.ldexp(d[0] * 134217728 + d[1], d[2])


def spots(r, path=()):
    """numbers in a recorded result"""
    if isinstance(r, dict):
        if 'sh' in r:
            if 'v' in r:
                for i in range(len(r['v'])):
                    yield path + ('v', i)
            else:
                for i in range(len(r['b'])):
                    yield path + ('b', i)
        else:
            for k in r:
                if k not in ('R', 'name', 'k'):
                    yield from spots(r[k], path + (k,))
    elif isinstance(r, list):
        for i, x in enumerate(r):
            yield from spots(x, path + (i,))
    elif isinstance(r, bool):
        yield path


def at(r, path):
    for k in path:
        r = r[k]
    return r


def change(r, path, rel, rng):
    holder = at(r, path[:-1])
    v = holder[path[-1]]
    if isinstance(v, bool):
        holder[path[-1]] = not v
        return 'flag'
    if v[2] >= 90000:
        holder[path[-1]] = split(1.0)
        return 'nonfinite'
    xs = [abs(join(d)) for d in holder if d[2] < 90000]
    m = max(xs) or 1.0
    holder[path[-1]] = split(join(v) + rng.choice((-1, 1)) * rel * m)
    return 'number'


def main():
    prop = sys.argv[1]
    rel = float(sys.argv[2]) if len(sys.argv) > 2 else 1e-9
    num = int(sys.argv[3]) if len(sys.argv) > 3 else 600
    rng = random.Random(1)
    work = os.path.join(check.BUILD, 'canary-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    items = check.plan_items(prop, 'quick', int(os.environ.get('VERIF_SEED', '1')))
    skip = os.environ.get('SKIP')                              # scenarios to leave out (badly conditioned ones)
    items = [i for i in items if not (skip and re.search(skip, json.dumps(i['c'])))][:num]
    res = check.Result()
    a = os.path.join(work, 'a')
    want = [w for w in props.PROPS[prop].get('want', ()) if w != 'history']
    e = check.run_plan(items, 1, want, a, res, focus='all')
    assert not e, e
    K = len([f for f in os.listdir(a) if f.startswith('shard')])
    made, how = {}, {}
    for k in range(1, K + 1):
        f = os.path.join(a, 'shard%d.ndjson' % k)
        out = []
        for l, line in enumerate(open(f), 1):
            ev = json.loads(line)
            ps = list(spots(ev['r'])) if ev['op'] != 'setup' and ev['x'] == '' else []
            if ps:
                p = rng.choice(ps)
                old = at(ev['r'], p)
                kind = change(ev['r'], p, rel, rng)
                made[k, l] = (ev['op'], '.'.join(str(x) for x in p if not isinstance(x, int)) or kind, kind)
                how[k, l] = (p[-1], old if isinstance(old, bool) else join(old) if old[2] < 9e4 else 'nan',
                             at(ev['r'], p) if kind == 'flag' else join(at(ev['r'], p)))
            out.append(json.dumps(ev))
        open(f, 'w').write('\n'.join(out) + '\n')
    res = check.Result()
    check.check_traces(a, K, res)
    caught = {(k, l) for k, l, *_ in res.fails}
    tot, ok = collections.Counter(), collections.Counter()
    ex = {}
    for kl, m in made.items():
        tot[m] += 1
        if kl not in caught:
            ok[m] += 1
            ex.setdefault(m, []).append((how[kl], check.event_of(a, *kl)[1]['c']))
    for m in sorted(tot):
        print('%-24s %-22s %-9s %4d changed, %4d accepted' % (m + (tot[m], ok[m])), '')
        for h, c in ex.get(m, [])[:int(os.environ.get('SHOW', '1'))]:
            print('      ', *h, json.dumps(c))
    shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
