'''C12: time-step matrices are right for any request order'''

import numpy as np

from sim import faults, gen, ref
from sim.util import Violation

def generate(rng, tier):
    'a case'

    modes = []
    h = rng.choice([0.01, 0.05, 0.1, 0.2, 0.25, 0.5, 1.0])

    for i in range(rng.randint(1, 3)):
        d = rng.choice([1, 2, 2, 3, 3, 4, 6, 9])
        kind = rng.choice(['general', 'rot', 'stable', 'int', 'clock', 'zero', 'sparse', 'stiff'])

        if d == 1 and kind in ('rot', 'int', 'clock'):
            kind = 'general'

        if kind == 'sparse':
            A = np.zeros((d, d))

            for _ in range(d):
                A[rng.randrange(d), rng.randrange(d)] = rng.choice([1.0, -1.0, 0.5, -2.0])

            A /= max(1.0, np.abs(A).sum(axis=1).max() * h)
        elif kind == 'stiff': # very different rates
            A = np.diag([-rng.choice([0.0, 0.1, 1.0, 10.0, 40.0, 60.0]) / h for _ in range(d)])

            for _ in range(d):
                i, j = rng.randrange(d), rng.randrange(d)

                if i != j:
                    A[i, j] = rng.choice([0.1, 0.2, -0.3])
        else:
            A = gen.make_a(rng, d, kind, h)

        m = {'A': np.array(A).tolist(), 'B': None}

        if rng.random() < 0.6:
            k = rng.randint(1, 3)
            m['B'] = [[float(rng.choice([0, 0, 1, 0.5, -1, 2])) for _ in range(k)] for _ in range(d)]

            for c in range(k):
                if not any(row[c] for row in m['B']):
                    m['B'][rng.randrange(d)][c] = 1.0

        modes.append(m)

    ops = []
    top = rng.choice([3, 8, 25, 60])
    at = {}

    for _ in range(rng.randint(4, 40 if tier == 'quick' else 120)):
        mode = rng.randrange(len(modes))
        r = rng.random()

        if r < 0.5: # direct request
            last = at.get(mode, 0)
            k = rng.choice([last + 1, last + 1, last + 1, last, last - 1, last + 2, last + rng.randint(1, 9), 0, 1, 2,
                            rng.randint(0, top)])
            k = max(0, min(k, top))
            at[mode] = k
            ops.append({'op': 'get', 'mode': mode, 'k': k})
        elif r < 0.6:
            ops.append({'op': 'set', 'mode': mode, 'approx': rng.choice([0, 0, 0, 2, 1])})
        elif r < 0.93:
            ops.append({'op': 'step', 'set': rng.randrange(6), 'by': rng.choice([1, 1, 1, 1, 2, 3, 5, 0]),
                        'plain': rng.random() < 0.5})
        elif r < 0.97:
            ops.append({'op': 'lgg', 'mode': mode})
        else:
            ops.append({'op': 'gc'})

    return {'h': h, 'modes': modes, 'ops': ops, 'faults': faults.benign(rng, 0.3)}

def shrinks(case):
    'simpler cases'

    import copy

    for i in range(len(case['ops'])):
        rv = copy.deepcopy(case)
        del rv['ops'][i]
        yield rv

    for i in range(len(case['faults'])):
        rv = copy.deepcopy(case)
        del rv['faults'][i]
        yield rv

    for i, op in enumerate(case['ops']):
        for key in ('k', 'by'):
            if op.get(key, 0) > 1:
                rv = copy.deepcopy(case)
                rv['ops'][i][key] -= 1
                yield rv

class RefMode:
    'reference matrices of a mode'

    def __init__(self, m, h):
        self.A, self.B, self.h = np.array(m['A'], dtype=float), m['B'], h
        self.lgg = False
        self.cache = {}
        self.phi, self.gamma = ref.zoh(m['A'], m['B'], h) if m['B'] is not None else (None, None)

    def exp(self, k):
        'exponential'

        if k not in self.cache:
            self.cache[k] = ref.expm(self.A * (k * self.h))

        return self.cache[k]

    def inputs(self, k):
        'effect of an input held during one step, k steps earlier'

        if self.B is None or k == 0:
            return None

        if self.lgg:
            return np.hstack([self.exp(k - 1).dot(np.array(self.B) * self.h), self.exp(k - 1)])

        return self.exp(k - 1).dot(self.gamma)

def compare(got, want, what):
    'compare matrices'

    if (got is None) != (want is None):
        raise Violation('matrix', f'{what}: got {"no matrix" if got is None else "a matrix"}')

    if got is None:
        return

    if got.shape != want.shape:
        raise Violation('matrix', f'{what}: shape {got.shape}, expected {want.shape}')

    tol = 1e-7 * (1 + np.abs(want).max())

    if not np.abs(got - want).max() <= tol:
        raise Violation('matrix', f'{what}: {got.tolist()}, expected {want.tolist()}')

def run(case):
    'run a case'

    import gc

    from hylaa import lputil
    from hylaa.hybrid_automaton import HybridAutomaton
    from hylaa.stateset import StateSet

    from sim.seams import SIM, running

    SIM.reset()
    faults.arm(case['faults'])
    requests = steps = switched = 0

    with running():
        ha = HybridAutomaton()
        modes, refs, sets, given = [], [], [], []

        for i, m in enumerate(case['modes']):
            mode = ha.new_mode(f'm{i}')
            mode.set_dynamics(np.array(m['A'], dtype=float))

            if m['B'] is not None:
                k = len(m['B'][0])
                mode.set_inputs(np.array(m['B'], dtype=float), np.vstack([np.eye(k), -np.eye(k)]), np.ones(2 * k),
                                allow_constants=True)

            mode.init_time_elapse(case['h'])
            modes.append(mode)
            refs.append(RefMode(m, case['h']))

        def keep(mat, what):
            'remember a returned matrix'

            if mat is not None:
                given.append((mat, mat.copy(), what))

        def request(mode, k):
            'a direct request'

            what = f'mode {mode} step {k}'
            bm, ie = modes[mode].time_elapse.get_basis_matrix(k)
            compare(bm, refs[mode].exp(k), what + ', state matrix')
            compare(ie, refs[mode].inputs(k), what + ', input matrix')
            keep(bm, what + ', state matrix')
            keep(ie, what + ', input matrix')

        for op in case['ops']:
            if op['op'] == 'get':
                request(op['mode'], op['k'])
                requests += 1
            elif op['op'] == 'lgg':
                # the switch happens when a set enters the mode; matrices were requested before
                if case['modes'][op['mode']]['B'] is not None and modes[op['mode']].time_elapse.time_elapse_obj is not None:
                    modes[op['mode']].time_elapse.use_lgg_approx()
                    refs[op['mode']].lgg = True
                    switched += 1
            elif op['op'] == 'set':
                d = len(case['modes'][op['mode']]['A'])
                s = StateSet(lputil.from_box([[-0.5 - i, 1.0] for i in range(d)], modes[op['mode']]), modes[op['mode']])
                s.cur_steps_since_start = [0, 0]
                approx = op['approx']
                inputs = case['modes'][op['mode']]['B'] is not None

                # in one analysis either all sets of a mode with inputs use the approximation, or none
                if inputs and refs[op['mode']].lgg or approx == 2 and beta_ok(case, op['mode']):
                    if not beta_ok(case, op['mode']):
                        continue

                    if inputs and any(m == op['mode'] and not lgg for _, m, _, lgg in sets):
                        continue

                    try:
                        s.apply_approx_model(2)
                    except AssertionError as e:
                        if 'beta' in str(e):
                            continue # stated limit of the approximation
                        raise

                    refs[op['mode']].lgg = inputs
                    sets.append((s, op['mode'], [], True))
                else:
                    if approx == 1:
                        if inputs and refs[op['mode']].lgg:
                            continue

                        s.apply_approx_model(1)

                    sets.append((s, op['mode'], [], refs[op['mode']].lgg))
            elif op['op'] == 'step':
                if not sets:
                    continue

                s, mode, _, lgg = sets[op['set'] % len(sets)]

                if refs[mode].B is not None and lgg != refs[mode].lgg:
                    continue # entered before the switch

                by = op['by']

                if refs[mode].B is not None and s.lpi.get_num_cols() > 150:
                    continue

                if op['plain'] and by == 1:
                    s.step()
                else:
                    s.step(s.cur_step_in_mode + by)

                steps += 1
                k = s.cur_step_in_mode
                compare(s.basis_matrix, refs[mode].exp(k), f'set in mode {mode} at step {k}, state matrix')
                compare(lputil.get_basis_matrix(s.lpi), refs[mode].exp(k), f'LP of a set in mode {mode} at step {k}')

                if refs[mode].B is not None:
                    if len(s.input_effects_list) != k:
                        raise Violation('matrix', f'set in mode {mode}: {len(s.input_effects_list)} input matrices after '
                                        f'{k} steps')

                    for j, mat in enumerate(s.input_effects_list):
                        compare(mat, refs[mode].inputs(j + 1), f'set in mode {mode} at step {k}: input matrix of step {j + 1}')
            else:
                gc.collect()

            for mat, before, what in given:
                if not np.array_equal(mat, before):
                    raise Violation('altered', f'the matrix returned for {what} was changed later')

    return {'sim_steps': requests + steps, 'requests': requests, 'set_steps': steps, 'switched': switched, 'h': case['h'],
            'sched': [(o['op'], o.get('k', o.get('by'))) for o in case['ops']], 'nontrivial': requests + steps > 4,
            'lp_calls': SIM.lp_calls}

def beta_ok(case, mode):
    'can the support-function approximation be used (its beta must not be close to zero)?'

    m = case['modes'][mode]

    if not any(any(row) for row in m['A']):
        return m['B'] is None

    a = float(np.abs(np.array(m['A'])).sum(axis=1).max())
    x = a * case['h']
    return m['B'] is None or (np.exp(x) - 1 - x) / a > 1e-5
