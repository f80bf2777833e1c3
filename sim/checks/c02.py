'''C02: merging sets never loses a reachable state'''

from sim import faults, gen
from sim.util import Skip, Violation, rng_for

def generate(rng, tier):
    'a case'

    case = gen.random_case(rng, true_guard=0.12, self_loop=0.3, eq_guard=0.02, multi_init=0.4, dimchange=0.08)
    case['set']['tt'] = False
    case['set']['stop_con'] = rng.random() < 0.15
    st = case['strat']
    st['kind'] = rng.choice(['sim', 'sim', 'stock'])
    st['group'] = rng.choice(['path', 'mode'])
    st['agg'] = rng.choice(['box', 'arnoldi', 'chull', 'mix'])
    gen.vary(rng, case, 0.03)
    case['faults'] = faults.benign(rng, 0.4)

    return case

def lost_state(case, mon, exact):
    'is there a state of the exact exploration which no explored set contains?'

    rng = rng_for('c02', case['h'], case['N'], len(exact.nodes))
    nodes = [n for n in exact.nodes if n.certain]
    checked = 0

    for n in rng.sample(nodes, min(25, len(nodes))):
        d = [rng.choice([-1.0, -0.5, 0.0, 0.5, 1.0]) for _ in range(n.ref.dims)]
        pt = n.ref.point(d)

        if pt is None:
            continue

        checked += 1

        for mode, lo, hi, k, r in mon.log:
            if mode == n.mode and k == n.k and lo + k <= n.total <= hi + k and r.contains(pt, 2e-5):
                break
        else:
            raise Violation('lost-state', f"state {[float(x) for x in pt]} is reachable in mode '{case['modes'][n.mode]['name']}' "
                            f'at step {n.total} ({n.k} in the mode), but no explored set contains it')

    return checked

def run(case):
    'run a case'

    from sim import world
    from sim.monitor import Monitor
    from sim.refexplore import explore
    from sim.seams import SIM, running

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()
    faults.arm(case['faults'])

    with running():
        w = world.World(case)
        mon = Monitor(case, w)
        mon.keep = True

        if not w.setup():
            mon.none_started()
            return {'stats': mon.stats, 'nontrivial': False}

        mon.started(w.core)
        done = w.drive(budget=200, each=mon.each)

        if done:
            mon.finished(w.core)

    checked = 0
    verdicts = 0

    if done and mon.stats['merges']:
        exact = explore(case, 150)
        res = w.core.result

        if exact.err_certain and not (res.has_aggregated_error or res.has_concrete_error):
            raise Violation('unsound', f'an error mode is reachable at step {exact.err_first}, but the analysis with merging '
                            'says safe')

        verdicts = int(exact.complete)

        # zero dynamics may be skipped: those sets are only explored for one step
        if not mon.stopped and not case['set']['skip0']:
            checked = lost_state(case, mon, exact)

    return {'stats': mon.stats, 'states': len(mon.states), 'sched': w.sched.trace, 'truncated': not done,
            'sim_steps': mon.stats['steps'], 'h': case['h'], 'nontrivial': mon.stats['merges'] > 0,
            'max_diff': mon.max_diff, 'lp_calls': SIM.lp_calls, 'states_checked_to_be_covered': checked,
            'exact_verdicts': verdicts}
