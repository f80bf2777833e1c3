'''C01: without merging, the explored sets are exactly the reachable states'''

from sim import faults, gen
from sim.util import Skip

OPTIONS = {}

def generate(rng, tier):
    'a case'

    case = gen.random_case(rng)
    case['set']['tt'] = False
    case['set']['ce'] = rng.random() < 0.9

    if rng.random() < 0.25:
        case['strat']['kind'] = rng.choice(['unagg', 'base'])

    gen.vary(rng, case, 0.03)
    case['faults'] = faults.benign(rng)
    return case

def run(case):
    'run a case; returns statistics; raises Violation'

    from sim import world
    from sim.monitor import Monitor
    from sim.seams import SIM, running

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()
    faults.arm(case['faults'])

    with running():
        w = world.World(case)
        mon = Monitor(case, w)

        if not w.setup():
            mon.none_started()
            return {'stats': mon.stats, 'nontrivial': False}

        mon.started(w.core)
        done = w.drive(budget=260, each=mon.each)

        if done:
            mon.finished(w.core)

    return {'stats': mon.stats, 'states': len(mon.states), 'sched': w.sched.trace, 'truncated': not done,
            'sim_steps': mon.stats['steps'], 'h': case['h'], 'nontrivial': mon.stats['transitions'] > 0,
            'err': mon.con_err, 'max_diff': mon.max_diff, 'lp_calls': SIM.lp_calls}
