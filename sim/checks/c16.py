'''C16: optional shortcuts never change what is reachable'''

import copy

from sim import faults, gen
from sim.util import Skip, Violation, rng_for

def generate(rng, tier):
    'a case'

    case = gen.random_case(rng, clock=0.45, zero=0.35, inv=0.8, resets=0.35, self_loop=0.1, max_steps=9, max_modes=3,
                           dims=((1, 1), (2, 5), (3, 3)), error=0.85)
    clocks = rng.random() < 0.2

    if clocks:
        case = gen.clocks_case(rng)

    s = case['set']
    s['stop_con'] = s['stop_agg'] = False
    s['strengthen'] = s['skip0'] = s['tt'] = False
    case['on'] = rng.choice([['strengthen'], ['skip0'], ['strengthen', 'skip0']])
    case['ttgroup'] = rng.choice(['none', 'none', 'path', 'mode'])
    case['strat']['agg'] = rng.choice(['box', 'arnoldi', 'chull'])
    case['faults'] = faults.benign(rng, 0.3)

    if not clocks and rng.random() < 0.3:
        odd_clock(rng, case)

    return case

def odd_clock(rng, case):
    'an initial set whose clock stands still at the guard, has an uncertain rate or is an interval'

    for init in case['init']:
        m = case['modes'][init['mode']]
        n = 0 if m['A'] is None else len(m['A'])
        pairs = []

        for t in case['trans']:
            if t['from'] != init['mode'] or n < 2 or any(m['A'][n - 1]) or any(m['A'][n - 2][:n - 1]) or not m['A'][n - 2][n - 1]:
                continue

            pairs += [(val / row[n - 2], t) for row, val in zip(t['G'], t['g']) if row[n - 2] and not any(row[:n - 2]) and not row[n - 1]]

        if not pairs:
            continue

        val, tran = rng.choice(pairs)
        kind = rng.choice(['stopped', 'stopped', 'stopped', 'rate', 'interval', 'back', 'balanced', 'balanced', 'input', 'second', 'second'])

        if kind in ('balanced', 'second') and (n < 3 or m['B'] is not None):
            kind = 'back'
        bounds = []

        for i in range(n):
            lo = round(rng.uniform(-1.5, 1), 2)
            bounds.append((lo, round(lo + rng.choice([0.0, 0.2, 0.5]), 2)))

        sign = 1.0 if m['A'][n - 2][n - 1] > 0 else -1.0

        if kind in ('stopped', 'back', 'balanced', 'input'):
            # (within the rounding margin of a time-triggered guard, where the invariant certainly holds)
            val -= rng.choice([0.0, 0.5, 0.5, 0.5]) * sign * case['h'] / case['N'] / 1000.0

        if kind == 'stopped':
            bounds[-2], bounds[-1] = (val, val), (0.0, 0.0)
        elif kind in ('back', 'balanced', 'input'):
            # on the boundary, from where the clock does not go on: other direction, two rates which cancel, an input
            bounds[-2], bounds[-1] = (val, val), (1.0, 1.0)
            rate = m['A'][n - 2][n - 1]

            if kind == 'back':
                bounds[-1] = (-1.0, -1.0)
                case['set']['urgent'] = True
            elif kind == 'balanced':
                other = rng.randrange(n - 2)
                m['A'][other] = [0.0] * n
                m['A'][n - 2][other] = rng.choice([1.0, -1.0, 2.0])
                cancel = -rate / m['A'][n - 2][other]

                if rng.random() < 0.3: # or even more
                    cancel *= 1.5
                    case['set']['urgent'] = True

                bounds[other] = (cancel, cancel)
            else:
                m['B'] = [[0.0] for _ in range(n - 2)] + [[1.0], [0.0]]
                m['Uc'], m['Ur'] = [[1.0], [-1.0]], [-rate, rate]

                if rng.random() < 0.6:
                    case['set']['urgent'] = True
                    m['Ur'] = [-1.1 * rate, 1.6 * rate] if rate > 0 else [-1.6 * rate, 1.1 * rate]
        elif kind == 'rate':
            bounds[-2], bounds[-1] = (0.0, 0.0), rng.choice([(0.5, 1.0), (0.0, 1.0), (1.0, 1.001)])
        else:
            ahead = rng.choice([1, 2, 3]) * case['h'] * sign * abs(m['A'][n - 2][n - 1])
            lo = round(val - ahead, 6)
            bounds[-2] = (lo, lo + rng.choice([0.25, 0.5, 0.9, 1e-3]) * case['h'])
            bounds[-1] = (1.0, 1.0)

            if kind == 'second':
                second_clock(rng, case, m, tran, bounds, ahead)

        init.clear()
        init.update({'mode': case['modes'].index(m), 'kind': 'box', 'b': bounds})

def second_clock(rng, case, m, tran, bounds, ahead):
    'the guard also has a condition on another clock, which is a single value and whose invariant ends later'

    n = len(m['A'])
    other = rng.randrange(n - 2)
    rate = rng.choice([1.0, -1.0, 0.5])
    m['A'][other] = [0.0] * (n - 1) + [rate]

    if m['B'] is not None:
        m['B'][other] = [0.0] * len(m['B'][other])

    start = bounds[other][0]
    bounds[other] = (start, start)
    reach = start + rate * case['h'] * rng.choice([0, 1, 1, 2, 2, 3]) # where the condition is met
    end = reach + rate * case['h'] * rng.choice([0.5, 3, 6, 20])
    sign = 1.0 if rate > 0 else -1.0
    row = [sign if i == other else 0.0 for i in range(n)]
    tran['G'].append([-x for x in row])
    tran['g'].append(-sign * reach)
    m['inv'].append(row)
    m['invr'].append(sign * end)

def run_one(case):
    'a monitored run'

    from sim import world
    from sim.monitor import Monitor
    from sim.seams import SIM, running

    SIM.reset_plans()
    faults.arm(case['faults'])

    with running():
        w = world.World(case)
        mon = Monitor(case, w)
        mon.keep = True
        end = w.run(mon.each, mon.started, budget=130)

        if end == 'nothing':
            mon.none_started()
        elif end == 'done':
            mon.finished(w.core)

    return end, mon, w

def covered(a, b, what, rng, pad=2e-5):
    'every sampled state of the sets of log a is in some set of log b (same mode)'

    n = 0

    for mode, lo, _, k, r in rng.sample(a, min(18, len(a))):
        d = [rng.choice([-1.0, -0.5, 0.0, 0.5, 1.0]) for _ in range(r.dims)]
        pt = exact_part(r).point(d)

        if pt is None:
            continue

        cands = sorted((x for x in b if x[0] == mode), key=lambda x: (abs(x[1] - lo) + abs(x[3] - k), x[1]))
        n += 1

        if not any(x[4].contains(pt, pad) for x in cands):
            raise Violation('shortcut', f'{what}: state {[float(x) for x in pt]} of mode {mode} (step {k} after entering at '
                            f'{lo}) is only reachable in one of the two analyses')

    return n

def exact_part(r):
    'the set without the margin of time-triggered guards'

    from sim.ref import RefSet
    return RefSet(r.G, r.g, r.E, r.e, r.M, r.m)

def run(case):
    'run a case'

    from sim import world
    from sim.seams import SIM

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()
    off, on, tt = copy.deepcopy(case), copy.deepcopy(case), copy.deepcopy(case)

    for key in case['on']:
        on['set'][key] = True

    tt['set']['tt'] = True
    tt['strat']['group'] = case['ttgroup']

    end_off, m_off, w = run_one(off)
    end_on, m_on, _ = run_one(on)
    end_tt, m_tt, _ = run_one(tt)
    rng = rng_for('c16', case['h'], case['N'], len(m_off.log))
    compared = points = 0

    if end_off == end_on == 'done' and not m_off.stats['dontcare'] and not m_on.stats['dontcare']:
        compared += 1

        if m_off.con_err != m_on.con_err:
            raise Violation('verdict', f"{case['on']}: error reachable {m_on.con_err}, without the shortcut {m_off.con_err}")

        points += covered(m_off.log, m_on.log, f"{case['on']} on loses states", rng)
        points += covered(m_on.log, m_off.log, f"{case['on']} on adds states", rng)

    if end_off == end_tt == 'done' and not m_off.stats['dontcare'] and not m_tt.stats['dontcare'] and \
       case['ttgroup'] == 'none':
        compared += 1

        if m_tt.con_err and not m_off.con_err:
            raise Violation('verdict', 'error reachable only with time-triggered transitions')

        points += covered(m_tt.log, m_off.log, 'time-triggered transitions add states', rng)

    stats = {k: m_off.stats[k] + m_on.stats[k] + m_tt.stats[k] for k in m_off.stats}

    return {'stats': stats, 'states': len(m_off.states), 'sched': w.sched.trace, 'h': case['h'],
            'sim_steps': stats['steps'], 'truncated': 'cut' in (end_off, end_on, end_tt), 'compared_pairs': compared,
            'points_compared': points, 'nontrivial': bool(m_tt.stats['tt'] or m_on.stats['zero'] or
                                                          'strengthen' in case['on'] and m_on.stats['transitions']),
            'tt_worlds': bool(m_tt.stats['tt']), 'zero_worlds': bool(m_on.stats['zero']), 'lp_calls': SIM.lp_calls}
