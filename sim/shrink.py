'''
Minimisation of a failing case: python -m sim.shrink PROP CASEFILE OUTFILE SECONDS
'''

import copy
import json
import sys
import time

def _drop_each(case, key):
    'remove one element of a list at a time (large chunks first)'

    items = case.get(key)

    if not isinstance(items, list) or not items:
        return

    size = len(items)

    while size >= 1:
        for start in range(0, len(items), size):
            rv = copy.deepcopy(case)
            del rv[key][start:start + size]
            yield rv
        size //= 2

def generic(case):
    'candidates which are simpler than the case'

    for key in ('sched', 'faults', 'ops', 'frames', 'events', 'runs'):
        yield from _drop_each(case, key)

    for key in ('sched', 'frames'):
        if case.get(key):
            rv = copy.deepcopy(case)
            while rv[key] and rv[key][-1] == 0:
                rv[key].pop()
            if len(rv[key]) < len(case[key]):
                yield rv

            for i, v in enumerate(case[key]):
                if v:
                    rv = copy.deepcopy(case)
                    rv[key][i] = 0
                    yield rv

    # nested worlds
    for key, val in case.items():
        if isinstance(val, dict) and 'modes' in val:
            for sub in generic(val):
                rv = copy.deepcopy(case)
                rv[key] = sub
                yield rv
        elif isinstance(val, list) and val and isinstance(val[0], dict) and 'modes' in val[0]:
            for i, item in enumerate(val):
                for sub in generic(item):
                    rv = copy.deepcopy(case)
                    rv[key][i] = sub
                    yield rv

    if 'modes' not in case:
        return

    if len(case['init']) > 1:
        for i in range(len(case['init'])):
            rv = copy.deepcopy(case)
            del rv['init'][i]
            yield rv

    for i in range(len(case['trans'])):
        rv = copy.deepcopy(case)
        del rv['trans'][i]
        yield rv

    # unused modes
    used = {s['mode'] for s in case['init']} | {t['from'] for t in case['trans']} | {t['to'] for t in case['trans']}

    for i in range(len(case['modes'])):
        if i not in used:
            rv = copy.deepcopy(case)
            del rv['modes'][i]
            fix = lambda j, i=i: j - 1 if j > i else j

            for s in rv['init']:
                s['mode'] = fix(s['mode'])
            for t in rv['trans']:
                t['from'], t['to'] = fix(t['from']), fix(t['to'])
            yield rv

    if case['N'] > 1:
        for n in (case['N'] // 2, case['N'] - 1):
            if n >= 1:
                rv = copy.deepcopy(case)
                rv['N'] = n
                yield rv

    for i, m in enumerate(case['modes']):
        if m['A'] is None:
            continue

        for r in range(len(m['inv'])):
            rv = copy.deepcopy(case)
            del rv['modes'][i]['inv'][r]
            del rv['modes'][i]['invr'][r]
            yield rv

        if m.get('B') is not None:
            rv = copy.deepcopy(case)
            rv['modes'][i]['B'] = rv['modes'][i]['Uc'] = rv['modes'][i]['Ur'] = None
            yield rv

    for i, t in enumerate(case['trans']):
        if t['M'] is not None:
            rv = copy.deepcopy(case)
            rv['trans'][i].update({'M': None, 'C': None, 'r': None})
            rv['trans'][i].pop('Mnone', None)
            yield rv

        src, dst = case['modes'][t['from']]['A'], case['modes'][t['to']]['A']

        if t['R'] is not None and t['M'] is None and (dst is None or len(src) == len(dst)):
            rv = copy.deepcopy(case)
            rv['trans'][i]['R'] = None
            yield rv

        for r in range(len(t['G'])):
            rv = copy.deepcopy(case)
            del rv['trans'][i]['G'][r]
            del rv['trans'][i]['g'][r]
            yield rv

    simple = {'urgent': False, 'strengthen': False, 'tt': False, 'skip0': False, 'stop_agg': False, 'stop_con': False,
              'stdout': 0, 'seed': 0, 'approx': 0}

    for k, v in simple.items():
        if case['set'].get(k) != v:
            rv = copy.deepcopy(case)
            rv['set'][k] = v
            yield rv

def minimise(mod, case, cls, seconds, log=lambda s: None):
    'greedy minimisation keeping the violation class'

    from sim.executor import execute

    cands = getattr(mod, 'shrinks', generic)
    end = time.monotonic() + seconds
    tried = 0
    progress = True

    while progress and time.monotonic() < end:
        progress = False

        for cand in cands(case):
            if time.monotonic() > end:
                break

            tried += 1
            res = execute(mod, cand)

            if res['kind'] == 'violation' and res['cls'] == cls:
                case = cand
                progress = True
                break

    log(f'{tried} candidates tried')
    return case, tried

def main():
    'main'

    prop, infile, outfile, seconds = sys.argv[1:5]

    from sim import seams
    seams.install()
    from sim.executor import execute, load
    import hylaa.core # pylint: disable=unused-import

    mod = load(prop)

    if getattr(mod, 'prepare', None):
        mod.prepare()

    data = json.load(open(infile))
    case, tried = minimise(mod, data['case'], data['cls'], float(seconds))
    res = execute(mod, case)
    data['original'] = data['case'] if data['case'] != case else None
    data['case'] = case
    data['minimise_tried'] = tried
    data['msg'] = res.get('msg', data['msg'])

    with open(outfile, 'w') as f:
        json.dump(data, f, indent=1)

if __name__ == '__main__':
    main()
