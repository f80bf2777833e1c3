'''C05: each pending set is explored once, to the end, and the analysis finishes'''

from sim import faults, gen
from sim.util import Skip, Violation

def generate(rng, tier):
    'a case'

    case = gen.random_case(rng, multi_init=0.5, self_loop=0.25, urgent=0.2, clock=0.25, zero=0.2, inv=0.6, true_guard=0.1)

    if rng.random() < 0.08:
        case = gen.clocks_case(rng)

    s, st = case['set'], case['strat']
    s['tt'] = rng.random() < 0.5
    s['stop_con'] = rng.random() < 0.4
    s['ce'] = rng.random() < 0.85
    s['stop_agg'] = rng.random() < 0.25
    st['kind'] = rng.choice(['sim', 'sim', 'stock', 'unagg', 'base'])
    st['group'] = rng.choice(['none', 'path', 'mode'])
    st['agg'] = rng.choice(['box', 'arnoldi', 'chull', 'mix'])
    case['faults'] = faults.benign(rng, 0.4)

    if rng.random() < 0.4:
        time_bound(rng, case)

    return case

def time_bound(rng, case):
    'the time bound is (up to rounding) a multiple of the step size, or somewhat less'

    if rng.random() < 0.5:
        case['h'] = rng.choice([0.01, 0.05, 0.3, 0.7, 1 / 3, 0.1, 0.1])

    h, N = case['h'], case['N']
    case['T'] = rng.choice([h * N, round(h * N, 6) if h != 1 / 3 else h * N, sum([h] * N), h * (N - 0.01), h * (N - 0.99)])

def run(case):
    'run a case'

    from sim import world
    from hylaa.settings import HylaaSettings
    from sim.monitor import Monitor, told
    from sim.seams import SIM, running

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()
    SIM.text = []
    faults.arm(case['faults'])

    if case.get('T'):
        steps = HylaaSettings(case['h'], case['T']).num_steps

        if steps != case['N']:
            raise Violation('bound', f"step size {case['h']} and maximum time {case['T']}: {steps} steps instead of {case['N']}")

    with running():
        w = world.World(case)
        mon = Monitor(case, w)
        end = w.run(mon.each, mon.started, budget=250)

        if end == 'nothing':
            mon.none_started()
            return {'stats': mon.stats, 'nontrivial': False}

        if end == 'done':
            mon.finished(w.core)
            told(SIM.text, w.core.result, case['set']['stdout'])

            # progress: every explored set is taken once and advanced at most to the step bound, then left
            limit = mon.stats['pops'] * (case['N'] + 2)

            if mon.stats['steps'] > limit:
                raise Violation('steps', f"{mon.stats['steps']} steps for {mon.stats['pops']} explored sets")

    return {'stats': mon.stats, 'states': len(mon.states), 'sched': w.sched.trace, 'truncated': end == 'cut',
            'sim_steps': mon.stats['steps'], 'h': case['h'], 'nontrivial': mon.stats['pops'] > 1, 'stopped': mon.stopped,
            'max_diff': mon.max_diff, 'lp_calls': SIM.lp_calls}
