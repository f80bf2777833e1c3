'''C04: a counterexample is a real execution to the error'''

import numpy as np

from sim import faults, gen, ref
from sim.util import Skip, Violation

TOL = 1e-5

def generate(rng, tier):
    'a case'

    case = gen.random_case(rng, error=1.0, inputs=rng.choice([0.15, 0.5]), mink=0.35, resets=0.55, multi_init=0.35,
                           max_steps=12, self_loop=0.25, dimchange=0.2, true_guard=0.1, max_modes=5)
    s, st = case['set'], case['strat']
    s['stop_con'] = rng.random() < 0.6
    s['stop_agg'] = rng.random() < 0.1
    s['ce'] = rng.random() < 0.95
    s['approx'] = rng.choice([0] * 14 + [1, 2])

    if s['approx'] == 2:
        for m in case['modes']:
            if m['A'] is not None and m['B'] is not None:
                m['B'] = m['Uc'] = m['Ur'] = None

    st['kind'] = rng.choice(['sim', 'sim', 'stock', 'unagg'])

    if st['kind'] != 'unagg' and rng.random() < 0.5:
        st['group'] = rng.choice(['path', 'path', 'mode'])
        st['agg'] = rng.choice(['box', 'arnoldi', 'chull', 'mix'])
        st['deagg'] = rng.random() < 0.8
        s['tt'] = False

    case['faults'] = faults.benign(rng, 0.4)

    if rng.random() < 0.06:
        crowd(rng, case)

    if rng.random() < 0.7:
        detour(rng, case)

    gen.vary(rng, case, 0.1)

    return case

def detour(rng, case):
    'no transition leads from the first mode to an error at once: errors are reached through several modes'

    modes = case['modes']
    real = [i for i, m in enumerate(modes) if m['A'] is not None and i]
    size = lambda i: len(modes[i]['A'])

    for t in case['trans']:
        same = [i for i in real if size(i) == size(0)]

        if t['from'] == 0 and modes[t['to']]['A'] is None and same and t['R'] is None and t['M'] is None:
            t['to'] = rng.choice(same)

    errors = [i for i, m in enumerate(modes) if m['A'] is None]

    ends = rng.sample(real, min(len(real), rng.choice([1, 1, 2])))

    for t in case['trans']: # which is easily reached from some of the others
        if t['from'] in ends and modes[t['to']]['A'] is None and rng.random() < 0.5:
            t['G'], t['g'] = [], []

    for i in ends:
        if rng.random() < 0.7:
            case['trans'].append({'from': i, 'to': rng.choice(errors), 'G': [], 'g': [], 'R': None, 'M': None, 'C': None,
                                  'r': None})

            if rng.random() < 0.7: # (not at once)
                n = size(i)
                row = [0.0] * n
                row[rng.randrange(n)] = rng.choice([1.0, -1.0])
                case['trans'][-1]['G'], case['trans'][-1]['g'] = [row], [round(rng.uniform(-1, 2), 2)]

def crowd(rng, case):
    'many more transitions, which are never enabled, from some mode; those of that mode come last'

    mi = rng.choice(case['trans'])['from'] if case['trans'] else 0
    n = len(case['modes'][mi]['A'])
    extra = []

    for _ in range(rng.randint(9, 13)):
        row = [0.0] * n
        row[rng.randrange(n)] = rng.choice([1.0, -1.0])
        to = rng.choice([i for i, m in enumerate(case['modes']) if m['A'] is None or len(m['A']) == n])
        extra.append({'from': mi, 'to': to, 'G': [row], 'g': [-1e4], 'R': None, 'M': None, 'C': None, 'r': None})

    case['trans'] = extra + case['trans']

def holds(rows, rhs, x):
    'largest violation of rows x <= rhs'
    return max((float(np.dot(r, x)) - v for r, v in zip(rows, rhs)), default=-1.0)

def check(case, ha, ce, tt_margin=0.0):
    'check a counterexample (list of CounterExampleSegment) against the matrices of the case'

    names = [m['name'] for m in case['modes']]
    trans_index = {id(t): i for i, t in enumerate(ha.transitions)}
    total = 0

    def bad(i, what):
        'complain'
        raise Violation('counterexample', f'segment {i} of {len(ce)}: {what}')

    for i, seg in enumerate(ce):
        if seg.mode is None or seg.mode.name not in names:
            bad(i, f'mode {seg.mode}')

        mi = names.index(seg.mode.name)
        m = case['modes'][mi]

        if m['A'] is None:
            bad(i, 'time is spent in an error mode')

        n = len(m['A'])

        if len(seg.start) != n or len(seg.end) != n:
            bad(i, f'{len(seg.start)} start and {len(seg.end)} end values for {n} variables')

        x = np.array(seg.start, dtype=float)
        scale = 1 + np.abs(x).max()

        if i == 0:
            from sim.world import ref_init

            if not any(s['mode'] == mi and ref_init(s).contains(x, TOL) for s in case['init']):
                bad(i, f'the start {seg.start} is in no initial set')

        ti = trans_index.get(id(seg.outgoing_transition))

        if ti is None or case['trans'][ti]['from'] != mi:
            bad(i, f'leaves with {seg.outgoing_transition}')

        t = case['trans'][ti]

        if seg.steps < 0 or seg.steps == 0 and not case['set']['urgent']:
            bad(i, f'{seg.steps} steps before the transition')

        has_inputs = m['B'] is not None
        phi, gam = ref.zoh(m['A'], m['B'], case['h'])

        if has_inputs and len(seg.inputs) != seg.steps:
            bad(i, f'{len(seg.inputs)} inputs for {seg.steps} steps')
        if not has_inputs and len(seg.inputs):
            bad(i, 'has inputs')

        if holds(m['inv'], m['invr'], x) > TOL * scale:
            bad(i, f'the start {seg.start} violates the invariant')

        for k in range(seg.steps):
            if holds(m['inv'], m['invr'], x) > TOL * scale:
                bad(i, f'the state {x.tolist()} after {k} of {seg.steps} steps violates the invariant')

            x = phi.dot(x)

            if has_inputs:
                u = np.array(seg.inputs[k], dtype=float)

                if len(u) != len(m['B'][0]):
                    bad(i, f'input {k} has {len(u)} values')
                if holds(m['Uc'], m['Ur'], u) > TOL:
                    bad(i, f'input {k} is {u.tolist()}, out of bounds')

                x = x + gam.dot(u)

            scale = max(scale, 1 + np.abs(x).max())

        if np.abs(x - np.array(seg.end)).max() > TOL * scale * 3:
            bad(i, f'ends at {list(map(float, seg.end))}, but {seg.steps} steps from {seg.start} lead to {x.tolist()}')

        total += seg.steps
        x = np.array(seg.end, dtype=float)

        if holds(t['G'], t['g'], x) > TOL * scale + tt_margin:
            bad(i, f'the guard of transition {ti} is false at {x.tolist()}')

        last = i + 1 == len(ce)
        target = case['modes'][t['to']]

        if last != (target['A'] is None):
            bad(i, f"transition {ti} leads to mode '{target['name']}'")

        if last:
            break

        if ce[i + 1].mode is None or ce[i + 1].mode.name != target['name']:
            bad(i, f"transition {ti} leads to mode '{target['name']}', but the next segment is in {ce[i + 1].mode}")

        y = x if t['R'] is None else np.array(t['R'], dtype=float).dot(x)

        if t['M'] is not None:
            w = np.array(seg.reset_minkowski_vars, dtype=float)

            if len(w) != len(t['M'][0]):
                bad(i, f'{len(w)} values for the {len(t["M"][0])} variables of the reset')
            if holds(t['C'], t['r'], w) > TOL:
                bad(i, f'reset variables {w.tolist()} are out of bounds')

            y = y + np.array(t['M'], dtype=float).dot(w)
        elif len(seg.reset_minkowski_vars):
            bad(i, 'has reset variables')

        if np.abs(y - np.array(ce[i + 1].start)).max() > TOL * scale * 3:
            bad(i, f'the reset leads to {y.tolist()}, but the next segment starts at {ce[i + 1].start}')

    if total > case['N']:
        raise Violation('counterexample', f'takes {total} steps, the bound is {case["N"]}')

    return total

def run(case):
    'run a case'

    from sim import world
    from sim.seams import SIM, running

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()
    faults.arm(case['faults'])
    merged = []

    def each(core, when):
        'note merges'

        s = core.aggdag.get_cur_state()

        if when == 'post' and s is not None and not s.is_concrete:
            merged.append(1)

        for op in core.aggdag.waiting_list:
            if op.poststate.lpi.get_num_cols() > 250:
                raise world.Cutoff()

    with running():
        w = world.World(case)
        end = w.run(each, None, budget=250)

    out = {'h': case['h'], 'sched': w.sched.trace, 'truncated': end == 'cut', 'lp_calls': SIM.lp_calls,
           'sim_steps': w.core.made, 'nontrivial': False}

    if end == 'nothing':
        return out

    res = w.core.result
    ce = list(res.counterexample or [])

    if big(ce):
        return out

    if ce and not res.has_concrete_error:
        raise Violation('counterexample', 'a counterexample, but no concrete error')

    if res.has_concrete_error and not ce and case['set']['ce'] and case['set']['approx'] == 0:
        raise Violation('counterexample', 'unsafe and counterexamples are requested, but there is none')

    if end == 'done' and res.has_aggregated_error and not merged:
        raise Violation('counterexample', 'nothing was merged, but the error is said to be due to merging')

    if ce and case['set']['approx'] == 0:
        # time-triggered guards are relaxed by a stated margin
        margin = 2e-3 * case['h'] if case['set']['tt'] else 0.0
        steps = check(case, w.ha, ce, margin)
        out.update({'counterexamples': 1, 'segments': len(ce), 'ce_steps': steps, 'nontrivial': len(ce) > 1,
                    'with_inputs': any(len(s.inputs) for s in ce), 'after_merge': bool(merged),
                    'reset_vars': any(len(s.reset_minkowski_vars) for s in ce)})

    return out

def big(ce):
    'too large for the tolerances?'
    return any(abs(v) > 1000 for s in ce for v in list(s.start) + list(s.end))
