'''C11: every simulated trace is a real execution, independent of its batch'''

import copy

import numpy as np

from sim import faults, gen, ref
from sim.util import Skip, Violation

TOL = 1e-7
NEAR = 1e-9

def generate(rng, tier):
    'a case'

    case = gen.random_case(rng, inputs=0.0, mink=0.0, self_loop=0.3, resets=0.55, true_guard=0.05, urgent=0.35,
                           max_steps=rng.choice([6, 12, 20]), max_modes=5, dimchange=rng.choice([0.0, 0.0, 0.3]), width=(0.3, 0.6, 1.0),
                           clock=0.25)
    case['strat']['kind'] = rng.choice(['stock', 'unagg', 'base'])
    case['set']['tt'] = rng.random() < 0.4
    case['faults'] = [f for f in faults.benign(rng, 0.4) if f['t'] in ('gc', 'clock', 'basis')]
    n = mode_dims(case)[case['modes'][0]['name']]
    c = [round(rng.uniform(-2.5, 2.5), 2) for _ in range(n)]
    first = case['init'][0]

    if first['kind'] == 'box' and rng.random() < 0.8:
        box = [list(b) for b in first['b']]
    else:
        box = [[v - w, v + w] for v, w in zip(c, [rng.choice([0.0, 0.2, 1.0]) for _ in c])]

    case['box'] = [[lo, hi if rng.random() < 0.4 else hi + rng.choice([0.0, 0.5])] for lo, hi in box]
    case['init'] = [{'mode': 0, 'kind': 'box', 'b': case['box']}]

    if rng.random() < 0.35:
        lattice(rng, case)

    case['count'] = rng.choice([1, 2, 3, 5, 8])
    case['events'] = gen.random_events(rng, 12)
    case['mode1'] = rng.choice([1, 1, 2, 3, 4])
    runs = []

    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(['range', 'range', 'single', 'order', 'plot', 'plot', 'again'])
        r = {'kind': kind, 'mode': rng.choice([1, 2, 3, 4]), 'events': gen.random_events(rng, 12)}

        if kind == 'range':
            a = rng.randrange(case['count'])
            r['range'] = [a, rng.randint(a + 1, case['count'])]
        elif kind == 'single':
            a = rng.randrange(case['count'])
            r['range'] = [a, a + 1]
        elif kind == 'order':
            r['strat'] = dict(case['strat'], kind=rng.choice(['stock', 'unagg', 'base']))
            r['avoid'] = [m['name'] for m in case['modes'] if rng.random() < 0.4]
        elif kind == 'plot':
            r['plot'] = gen.random_plot(rng, case, mode=r['mode'])

        runs.append(r)

    case['runs'] = runs
    case['avoid'] = [m['name'] for m in case['modes'] if rng.random() < 0.2]

    return case

def lattice(rng, case):
    'dynamics and conditions with few binary digits, and start points too: states exactly on a boundary are common'

    def q(x):
        'multiple of a quarter'

        if isinstance(x, list):
            return [q(y) for y in x]

        return round(x * 4) / 4

    case['h'] = rng.choice([0.5, 1.0])

    for m in case['modes']:
        if m['A'] is not None:
            m['A'] = gen.make_a(rng, len(m['A']), rng.choice(['zero', 'int', 'int', 'clock']), case['h']).tolist()
            m['inv'], m['invr'] = q(m['inv']), q(m['invr'])

            for i, row in enumerate(m['inv']):
                if not any(row):
                    m['inv'][i], m['invr'][i] = [1.0] + row[1:], 3.0

    for t in case['trans']:
        t['G'], t['g'] = q(t['G']), q(t['g'])

        for i, row in enumerate(t['G']):
            if not any(row):
                t['G'][i], t['g'][i] = [1.0] + row[1:], 1.0

        if t['R'] is not None:
            t['R'] = q(t['R'])

    case['box'] = q(case['box'])

    for b in case['box']:
        if rng.random() < 0.8:
            b[1] = b[0]

    case['init'][0]['b'] = case['box']

def short(vals):
    'do all of the numbers have few binary digits?'

    return all(float(v) * 1024 == round(float(v) * 1024) and abs(v) < 1e4 for v in vals)

def mode_dims(case):
    'number of variables by name'
    return {m['name']: len(m['A']) for m in case['modes'] if m['A'] is not None}

def full_plot(case, mode):
    'plots from which the states can be read: one for each variable, over time'

    dims = mode_dims(case)
    same = len(set(dims.values())) == 1
    rv = []

    for j in range(max(dims.values())):
        rv.append([None, j if same else {name: (j if j < n else 0) for name, n in dims.items()}])

    return {'mode': mode, 'dims': rv, 'store': False, 'lists': False, 'stride': 1, 'markers': True, 'grid': False, 'skip': 0,
            'extra': 1, 'pause': 1, 'show_frame': False}

def simulate(case, plot, events, num, strat=None, avoid=()):
    'one batch; returns the lines'

    from sim import ui, world
    from sim.seams import SIM

    c = dict(case, plot=plot)

    if strat is not None:
        c['strat'] = strat

    w = world.World(c)

    if hasattr(w.settings.aggstrat, 'sim_avoid_modes'):
        w.settings.aggstrat.sim_avoid_modes = list(avoid)

    core = world.SteppedCore(w.ha, w.settings)
    core.budget = 3000
    steps = [0]

    def each(_core, when):
        'count'
        steps[0] += when == 'post'

    core.each = each
    SIM.ui = ui.Display(events)

    try:
        res = core.simulate(w.modes[0], [list(b) for b in case['box']], num)
    except world.Cutoff:
        raise Skip('an endless chain of transitions without time') from None
    finally:
        SIM.ui = None

    if not core.is_finished():
        raise Violation('unfinished', 'simulate() returned before the simulations were finished')

    if not plot.get('limits'):
        for axes, sub in zip(core.plotman.axes_list, res.sim_lines):
            (xlo, xhi), (ylo, yhi) = sorted(axes.get_xlim()), sorted(axes.get_ylim())

            for x, y in (p for seg in sub for line in seg for p in line):
                if not (xlo - 1e-9 * (1 + abs(x)) <= x <= xhi + 1e-9 * (1 + abs(x)) and
                        ylo - 1e-9 * (1 + abs(y)) <= y <= yhi + 1e-9 * (1 + abs(y))):
                    raise Violation('out-of-view', f'a simulation reaches {float(x), float(y)}, but the axes only show {xlo, xhi} x '
                                    f'{ylo, yhi}')

    import matplotlib.pyplot as plt
    plt.close('all')

    return [[[[(float(p[0]), float(p[1])) for p in line] for line in seg] for seg in sub] for sub in res.sim_lines], steps[0]

def read_lines(lines, h):
    'list of [(step, values), ...], from the lines of a full plot'

    rv = []
    counts = {len(sub) for sub in lines}

    if len(counts) != 1:
        raise Violation('lines', f'the subplots have {counts} segments')

    for s in range(len(lines[0])):
        n = {len(sub[s]) for sub in lines}

        if len(n) != 1:
            raise Violation('lines', f'segment {s}: the subplots have {n} lines')

        for i in range(len(lines[0][s])):
            pts = []
            size = {len(sub[s][i]) for sub in lines}

            if len(size) != 1 or size == {0}:
                raise Violation('lines', f'segment {s}, line {i}: the subplots have {size} points')

            for p in range(len(lines[0][s][i])):
                t = lines[0][s][i][p][0]
                k = round(t / h)

                if abs(k * h - t) > 1e-9 * (1 + t):
                    raise Violation('lines', f'time {t} is not a multiple of the step {h}')

                pts.append((k, np.array([sub[s][i][p][1] for sub in lines])))

            rv.append({'seg': s, 'pts': pts, 'used': False})

    return rv

class Reference:
    'what a trace may do'

    def __init__(self, case):
        from sim.monitor import tt_rows

        self.case = case
        self.N = case['N']
        self.phi = [None if m['A'] is None else ref.expm(np.array(m['A']) * case['h']) for m in case['modes']]
        self.soft = []
        eps = case['h'] / case['N'] / 1000 * 1.01

        for t in case['trans']:
            tts = tt_rows(case, t) if case['set']['tt'] else []
            self.soft.append([eps if i in tts else 0.0 for i in range(len(t['g']))])

        self.close = self.exact = 0

    def value(self, rows, rhs, x, soft=None):
        'three-valued conjunction: True, False or None (too close to call)'

        rv = True
        exact = short(x)

        for i, (r, v) in enumerate(zip(rows, rhs)):
            d = float(np.dot(r, x)) - v
            near = 0.0 if exact and short(r) and short([v]) else NEAR * (1 + abs(v) + np.abs(np.multiply(r, x)).sum())
            self.exact += int(near == 0.0 and d == 0.0)

            if d > near + (soft[i] if soft else 0.0):
                return False
            if d > -near:
                rv = None

        return rv

    def guard(self, ti, x):
        'is a transition enabled?'

        t = self.case['trans'][ti]
        rv = self.value(t['G'], t['g'], x, self.soft[ti])
        to = self.case['modes'][t['to']]

        if rv is False or not self.case['set']['strengthen'] or t['to'] == t['from'] or t['R'] is not None or \
           to['A'] is None:
            return rv

        inv = self.value(to['inv'], to['invr'], x)

        if any(self.soft[ti]): # possibly time-triggered: those are not strengthened
            return rv if inv is True else None

        return inv if inv is not True else rv

    def outcomes(self, mi, k, x, first):
        "what may happen at a state: list of 'end', 'advance' or transition numbers"

        if k >= self.N:
            return ['end']

        rv = []
        m = self.case['modes'][mi]

        if not first or self.case['set']['urgent']:
            for ti, t in enumerate(self.case['trans']):
                if t['from'] != mi:
                    continue

                g = self.guard(ti, x)

                if g is not False:
                    rv.append(ti)
                if g is True:
                    return rv

                self.close += g is None

        inv = self.value(m['inv'], m['invr'], x)

        if inv is not False:
            rv.append('advance')
        if inv is not True:
            rv.append('end')

        return rv

    def post(self, ti, x):
        'state after a transition'

        t = self.case['trans'][ti]
        return x if t['R'] is None else np.array(t['R'], dtype=float).dot(x)

def same(a, b):
    'equal states? (plots of modes with fewer variables repeat the first)'

    n = min(len(a), len(b))
    return np.abs(a[:n] - b[:n]).max() <= TOL * (1 + np.abs(a[:n]).max()) if n else True

def follow(rf, lines, mi, line, why):
    '''check a line as a stay in mode mi and everything after it; returns a list of (mode, points) or None

    why: the deepest explanation of a failure
    '''

    pts = line['pts']
    n = len(rf.case['modes'][mi]['A'])
    i = 0

    while True:
        k, x = pts[i][0], pts[i][1][:n]
        name = rf.case['modes'][mi]['name']
        last = i + 1 == len(pts)
        options = rf.outcomes(mi, k, x, i == 0)

        if last:
            if 'end' in options:
                return [(mi, line)]

            why.append((k, f"the line in mode '{name}' ends at step {k} at {x.tolist()}, allowed were {options}"))
            return None

        k2, x2 = pts[i + 1]

        if k2 == k + 1:
            if 'advance' not in options:
                why.append((k, f"time advances in mode '{name}' at step {k} at {x.tolist()}, allowed were {options}"))
                return None

            want = rf.phi[mi].dot(x)

            if not same(want, x2[:n]):
                why.append((k, f"in mode '{name}', step {k + 1} should lead from {x.tolist()} to {want.tolist()}, not "
                            f'{x2.tolist()}'))
                return None

            i += 1
            continue

        if k2 != k or i + 2 != len(pts):
            why.append((k, f"in mode '{name}', after step {k} comes step {k2} (point {i + 2} of {len(pts)})"))
            return None

        for ti in options:
            if isinstance(ti, str):
                continue

            t = rf.case['trans'][ti]
            to = rf.case['modes'][t['to']]
            y = rf.post(ti, x)

            if to['A'] is None:
                if same(y, x2) or same(x, x2):
                    return [(mi, line)]
                continue

            if not same(y, x2[:len(y)]):
                why.append((k, f'transition {ti} at {x.tolist()} leads to {y.tolist()}, not {x2.tolist()}'))
                continue

            for other in lines:
                if other['used'] or other['pts'][0][0] != k or not same(y, other['pts'][0][1][:len(y)]):
                    continue

                other['used'] = True
                rest = follow(rf, lines, t['to'], other, why)

                if rest is not None:
                    return [(mi, line)] + rest

                other['used'] = False

            why.append((k, f"after transition {ti} at step {k} nothing continues in mode '{to['name']}' at {y.tolist()}"))

        why.append((k, f"in mode '{name}' at step {k} at {x.tolist()}, a transition to {x2.tolist()} is taken; allowed were "
                    f'{options}'))
        return None

def chains(case, lines, rf):
    'all traces of a batch'

    recs = read_lines(lines, case['h'])
    firsts = [r for r in recs if r['seg'] == 0]
    rv = []

    for r in firsts:
        r['used'] = True

    for n, r in enumerate(firsts):
        k, x = r['pts'][0]
        dims = len(case['box'])

        if k != 0 or any(not lo - 1e-12 <= v <= hi + 1e-12 for v, (lo, hi) in zip(x[:dims], case['box'])):
            raise Violation('start', f"simulation {n} starts at step {k} at {x.tolist()}, outside of {case['box']}")

        why = []
        chain = follow(rf, recs, 0, r, why)

        if chain is None:
            raise Violation('not-an-execution', f'simulation {n} from {x.tolist()}: {max(why, key=lambda w: w[0])[1]}')

        rv.append(chain)

    left = [r for r in recs if not r['used']]

    if left:
        raise Violation('not-an-execution', f'{len(left)} lines belong to no simulation, one starts at {left[0]["pts"][0]}')

    return rv

def flat(chain):
    'modes and points of a trace'
    return [(mi, [(k, x.tolist()) for k, x in line['pts']]) for mi, line in chain]

def equal(a, b):
    'are two traces the same?'

    if len(a) != len(b):
        return False

    for (m1, p1), (m2, p2) in zip(a, b):
        if m1 != m2 or len(p1) != len(p2):
            return False
        if any(k1 != k2 or not same(np.array(x1), np.array(x2)) for (k1, x1), (k2, x2) in zip(p1, p2)):
            return False

    return True

def project(case, chain, spec):
    'lines of a trace in one subplot'

    def coord(d, mi, k, x):
        'one coordinate'

        name = case['modes'][mi]['name']
        d = d[name] if isinstance(d, dict) else d

        if d is None:
            return k * case['h']
        if isinstance(d, list):
            return float(np.dot(d, x[:len(d)]))

        return float(x[d])

    rv = []

    for seg, (mi, pts) in enumerate(chain):
        line = []

        for i, (k, x) in enumerate(pts):
            # the state after a transition is drawn as one of the entered mode
            after = i > 0 and pts[i - 1][0] == k
            here = mi

            if after and seg + 1 < len(chain):
                here = chain[seg + 1][0]

            line.append((coord(spec[0], here, k, x), coord(spec[1], here, k, x)))

        rv.append(line)

    return rv

def check_projection(case, all_chains, lines, plot):
    'do the lines of a plot show the traces?'

    for sub, spec in enumerate(plot['dims']):
        want = sorted(line for c in all_chains for line in project(case, c, spec))
        got = sorted(line for seg in lines[sub] for line in seg)

        if len(want) != len(got):
            raise Violation('plot', f'subplot {sub} has {len(got)} lines, not {len(want)}')

        left = list(got)

        for w in want:
            for g in left:
                if len(w) == len(g) and all(abs(p[0] - q[0]) <= 1e-6 * (1 + abs(p[0])) and
                                            abs(p[1] - q[1]) <= 1e-6 * (1 + abs(p[1])) for p, q in zip(w, g)):
                    left.remove(g)
                    break
            else:
                raise Violation('plot', f'subplot {sub} ({spec}) has no line {w}')

def run(case):
    'run a case'

    from sim import world
    from sim.seams import SIM, running, seed_global_random
    from hylaa.settings import PlotSettings

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()
    faults.arm(case['faults'])
    rf = Reference(case)
    plot = full_plot(case, case['mode1'])

    with running():
        seed_global_random(5)
        lines, steps = simulate(case, plot, copy.deepcopy(case['events']), case['count'], avoid=case['avoid'])
        base = [flat(c) for c in chains(case, lines, rf)]

        if len(base) != case['count']:
            raise Violation('count', f"{len(base)} simulations instead of {case['count']}")

        for r in case['runs']:
            seed_global_random(r['mode'])
            num = r.get('range', case['count'])
            p = r.get('plot') or full_plot(case, r['mode'])
            lines, n = simulate(case, p, r['events'], num, r.get('strat'), r.get('avoid', case['avoid']))
            steps += n
            SIM.fire('batch_' + r['kind'])

            if r['kind'] == 'plot':
                if p['stride'] == 1 or p['mode'] == PlotSettings.PLOT_IMAGE:
                    check_projection(case, base, lines, p)
                continue

            got = [flat(c) for c in chains(case, lines, rf)]
            want = base if 'range' not in r else base[r['range'][0]:r['range'][1]]

            if len(got) != len(want):
                raise Violation('count', f'{len(got)} simulations instead of {len(want)}')

            for i, (a, b) in enumerate(zip(want, got)):
                if not equal(a, b):
                    raise Violation('batch-dependent', f"simulation {i} of another batch ({r['kind']} {num}) goes {b}, in the "
                                    f'first batch {a}')

    return {'h': case['h'], 'sim_steps': steps, 'lp_calls': SIM.lp_calls, 'traces': len(base), 'batches': 1 + len(case['runs']),
            'segments': sum(len(c) for c in base), 'close_calls': rf.close, 'exact_hits': rf.exact,
            'sched': [case['mode1'], [r['kind'] for r in case['runs']], [len(c) for c in base]],
            'nontrivial': any(len(c) > 1 for c in base) and steps > 4}
