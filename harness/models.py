"""Model checking of the specification itself: the laws of Laws.tla, the
programs of Session.tla, and the Java overrides against their TLA+ definitions.

    models.py [-f] [LAW ...]     run laws by hand (-f: the fine lattice)
"""
import concurrent.futures
import os
import re
import sys
import time

# law: the coordinates of the lattice it depends on
LAWS = {
    'L01': 'A', 'L02': 'e A zA', 'L03': 'e A zA', 'L04': 'e A B zA zB', 'L05': 'A az ay', 'L06': 'ax ay az',
    'L07': 'e A az ay zA', 'L08': 'A B C', 'L09': 'A az s s2', 'L10': 'A B C', 'L11': 'A B C s', 'L12': 'A B t',
    'L13': 'A B C D', 'L14': 'A B t', 'L15': 'win ord mode j', 'L15b': 'k j', 'L16': 'A B C az', 'L17': 'e A az s',
    'L17b': 'A az s', 'L18': 'e A az s', 'L18b': 'e A az s s2', 'L19': 'A B C', 'L20': 'e A zA ax', 'L22': 'A B C D k',
    'L23': 'A B C zA zB', 'L24': 'A B C D', 'L25': 'e A zA s', 'L26': 'A B k win', 'L27': 'A zA B t',
    'L28': 'A ax ay az', 'L29': 'A B zA ax az',
}
QUICK = {'L18b': 'A az s s2'}                                  # a thinner lattice for the quick tier
SESSION = ['TypeOK', 'Rooted', 'StillValid']
STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def laws_of(prop):
    n = 'L' + prop[1:]
    return [k for k in sorted(LAWS) if k.rstrip('b') == n]


def write_cfg(path, const, body):
    with open(path + '.cfg', 'w') as fh:
        fh.write('SPECIFICATION Spec\nCONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in const.items()) + body +
                 '\nCHECK_DEADLOCK FALSE\n')
    return path


def counted(out):
    m = STATES.findall(out)
    return tuple(map(int, m[-1])) if m else (0, 0)


def law(check, name, fine, work):
    os.makedirs(work, exist_ok=True)
    uses = (QUICK if not fine else {}).get(name, LAWS[name])
    cfg = write_cfg(os.path.join(work, name), {'Uses': '{%s}' % ', '.join('"%s"' % c for c in uses.split()),
                                               'Fine': 'TRUE' if fine else 'FALSE'}, 'INVARIANT ' + name)
    code, out = check.tlc('Laws', {}, work, cfg=cfg)
    return code, counted(out), out


def session(check, tier, work, in_place):
    """every program of a few steps: 0 = Frame and the invariants hold"""
    os.makedirs(work, exist_ok=True)
    big = tier != 'quick' and not in_place
    kinds = ['point', 'local', 'path', 'convert', 'delta', 'unit', 'set', 'reask', 'arith', 'number', 'again', 'spoil']
    if big:
        kinds = ['point', 'local', 'unit', 'set', 'number', 'convert', 'again', 'spoil']
    cfg = write_cfg(os.path.join(work, 'session'),
                    {'MaxObj': 4, 'MaxLen': 6 if big else 5, 'InPlace': 'TRUE' if in_place else 'FALSE', 'Warm': 0,
                     'Dump': 'FALSE', 'Classes': '{%s}' % ', '.join('"%s"' % k for k in kinds)},
                    'INVARIANTS %s\nPROPERTY Frame' % ' '.join(SESSION[:1] if in_place else SESSION))
    code, out = check.tlc('Session', {}, work, cfg=cfg)
    return code, counted(out), out


def kernel(check, tier, work):
    """the overrides against the definitions, and the laws of arithmetic on the overrides"""
    os.makedirs(work, exist_ok=True)
    const = {'Count': 20, 'From': 1, 'To': 20}
    code, out = check.tlc('Kernel', {'OUT': os.path.join(work, 'laws.json')}, work,
                          cfg=write_cfg(os.path.join(work, 'laws'), const, 'INVARIANT Laws'))
    if code:
        return 'laws of arithmetic: TLC %d\n%s' % (code, out[-2000:]), None
    states = counted(out)
    rows, cols = ([6, 8, 10, 11, 12, 16, 17, 20], 3) if tier == 'quick' else (range(1, 21), 6)

    def one(r):
        d = os.path.join(work, 'row%d' % r)
        os.makedirs(d, exist_ok=True)
        files = []
        for fast in (True, False):
            f = os.path.join(d, '%s.json' % fast)
            c = write_cfg(os.path.join(d, 'table'), {'Count': cols, 'From': r, 'To': r}, '')
            code, out = check.tlc('Kernel', {'OUT': f}, d, workers=1, heap='1g', cfg=c, accelerated=fast)
            if code:
                return 'row %d (%s): TLC %d\n%s' % (r, 'overrides' if fast else 'definitions', code, out[-1500:])
            files.append(open(f).read())
        return None if files[0] == files[1] else 'row %d: the overrides differ from the definitions' % r
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for e in ex.map(one, rows):
            if e:
                return e, None
    return None, {'arithmetic_law_states': states[1], 'override_table_rows_compared': len(rows),
                  'override_operations_per_row': 34 * cols + 3 + 21 + 41}


def check_prop(check, prop, tier, work, res):
    """model checks belonging to a property; text of an error or None"""
    done = {}
    fine = tier != 'quick'
    for n in laws_of(prop):
        code, (gen, st), out = law(check, n, fine, os.path.join(work, n))
        if code:
            return 'law %s of the specification: TLC %d\n%s' % (n, code, out[-3000:])
        done['law_' + n] = st
        res.states += st
        res.trans += gen
    if prop == 'C21':
        code, (gen, st), out = session(check, tier, os.path.join(work, 'session'), False)
        if code:
            return 'programs of Session.tla: TLC %d\n%s' % (code, out[-3000:])
        done['session_states'] = st
        res.states += st
        res.trans += gen
        code, _, out = session(check, tier, os.path.join(work, 'inplace'), True)
        if 'is violated' not in out:
            return 'the in-place variant of Session.tla must break Frame: TLC %d\n%s' % (code, out[-1500:])
        done['in_place_variant'] = 'breaks Frame, as it must'
    if prop == 'C28':
        e, more = kernel(check, tier, os.path.join(work, 'kernel'))
        if e:
            return e
        done.update(more)
    if done:
        res.extra['model_checks_of_the_specification'] = done
    return None


if __name__ == '__main__':
    import check
    fine = '-f' in sys.argv
    for n in [a for a in sys.argv[1:] if a != '-f'] or sorted(LAWS):
        t0 = time.time()
        code, st, out = law(check, n, fine, os.path.join(check.BUILD, 'laws'))
        print(n, code, st[1], '%.1f s' % (time.time() - t0), flush=True)
        if code:
            i = out.find('Error')
            print(out[i:i + 1500], flush=True)
