'''C06: solver failures are masked or reported, never turned into a wrong answer'''

import copy

from sim import gen
from sim.util import Skip, Violation

TOL = 1e-6
BUDGET = 60
WAITING = 20
CODES = ('EBADB', 'ESING', 'ECOND', 'EFAIL', 'EITLIM', 'ETMLIM', 'EBOUND', 'EOBJLL', 'EOBJUL', 'ENODFS')
STATUSES = ('UNDEF', 'FEAS', 'INFEAS', 'UNBND')

def generate(rng, tier):
    'a case'

    case = gen.mixed_case(rng, max_steps=8, error=rng.choice([0.4, 1.0]))
    case['faults'] = []
    plans = []

    for _ in range(rng.randint(2, 6)):
        kind = rng.choice(['single', 'single', 'several', 'burst', 'dead', 'status', 'nofeas', 'nofeas2', 'basis', 'mix'])
        faults = []

        if kind in ('single', 'several', 'mix'):
            for _ in range(1 if kind == 'single' else rng.randint(2, 5)):
                faults.append(['code', pos(rng), 1, [rng.choice(CODES)]])
        if kind == 'burst':
            n = rng.randint(2, 5)
            faults.append(['code', pos(rng), n, [rng.choice(CODES) for _ in range(n)]])
        elif kind == 'dead':
            faults.append(['code', pos(rng), 100000, [rng.choice(CODES) for _ in range(rng.randint(1, 3))]])
        elif kind == 'status':
            faults.append(['status', pos(rng), 1, [rng.choice(STATUSES)]])
        if kind in ('nofeas', 'mix'):
            faults += [['nofeas', pos(rng), 1, []] for _ in range(rng.randint(1, 3))]
        elif kind == 'nofeas2':
            faults.append(['nofeas', pos(rng), 2, []])
        if kind in ('basis', 'mix'):
            faults += [['basis', pos(rng), rng.choice([1, 1, 7]), []] for _ in range(rng.randint(1, 8))]

        plans.append({'kind': kind, 'faults': faults})

    case['plans'] = plans

    return case

def pos(rng):
    'a position as a fraction of all positions'
    return round(rng.random() ** rng.choice([1, 1, 2.5]), 6)

def arm(plan, counts):
    'put a plan into the seams'

    from sim.seams import SIM

    for t, frac, n, what in plan['faults']:
        top = counts['req'] if t == 'nofeas' else counts['lp']
        at = int(frac * max(0, top - 1))

        if t == 'nofeas':
            SIM.req_faults[at] = n
        elif t == 'basis':
            for i in range(n):
                SIM.std_basis.add(at + i)
        elif n > 1000:
            SIM.lp_dead = (at, what)
        else:
            for i in range(n):
                SIM.lp_faults[at + i] = {t: what[i % len(what)]}

def analysis(case, plan, counts):
    'a run in a forked child; returns the trace'

    from sim import trace, world
    from sim.checks import c04
    from sim.executor import _short_tb
    from sim.seams import SIM, running

    SIM.reset()

    with running():
        w = world.World(case)

    SIM.reset()

    if plan is not None:
        arm(plan, counts)

    with running():
        tr = trace.Trace()

        try:
            end = w.run(tr.each, budget=BUDGET, max_waiting=WAITING)
        except Exception as e: # pylint: disable=broad-except
            return {'end': 'error', 'error': f'{type(e).__name__}: {str(e)[:100]} at {_short_tb(e)}', 'steps': tr.steps, 'fired': SIM.fired,
                    'lp': SIM.lp_calls}

    res = tr.result(end, w.core)
    res.update({'lp': SIM.lp_calls, 'req': SIM.req_calls, 'fired': SIM.fired})

    if end == 'done' and w.core.result.counterexample and case['set']['approx'] == 0:
        ce = list(w.core.result.counterexample)

        if not c04.big(ce):
            try:
                c04.check(case, w.ha, ce, 2e-3 * case['h'] if case['set']['tt'] else 0.0)
            except Violation as e:
                res['bad_ce'] = e.msg

    return res

def with_faults(case, plan, counts):
    'a run in a forked child'

    from sim.executor import in_fork

    kind, val = in_fork(lambda: analysis(case, plan, counts))

    if kind == 'exit' and val == 3:
        raise Violation('exception', f'an exception which is not an error of the solver (plan {plan})')
    if kind == 'signal' and val == 6:
        raise Skip('the solver library aborted (assertion in GLPK)')
    if kind != 'ok':
        raise Violation('crash', f'{kind} {val} (plan {plan})')

    return val

def close_call(case, base):
    'does a tiny change of the constraints change the analysis?'

    from sim import trace

    for eps in (1e-5, -1e-5, 3e-7, -3e-7):
        c = copy.deepcopy(case)

        for m in c['modes']:
            m['invr'] = [v + eps for v in m['invr']] if m.get('invr') else m.get('invr')
        for t in c['trans']:
            t['g'] = [v + eps for v in t['g']]

        try:
            other = with_faults(c, None, None)
        except Violation:
            return True

        if trace.difference(base, other, 5e-3, ce=False):
            return True

    return False

def run(case):
    'run a case'

    from sim import trace, world
    from sim.seams import SIM

    if not world.usable(case) or not case['plans']:
        raise Skip('empty guard or invariant')

    base = with_faults(case, None, None)

    if base['end'] == 'error':
        raise Violation('exception-baseline', f"fails without faults: {base['error']}")
    if base['end'] == 'nothing':
        raise Skip('no feasible initial states')
    if base.get('bad_ce'):
        raise Violation('bad-counterexample', f"without faults: {base['bad_ce']}")

    masked = reported = lp = 0

    for plan in case['plans']:
        got = with_faults(case, plan, base)
        fired = {k: v for k, v in got['fired'].items()}
        lp += got['lp']

        for k, v in fired.items():
            SIM.fired[k] = SIM.fired.get(k, 0) + v

        # a single failure is one that the next call does not see
        persistent = plan['kind'] in ('dead', 'status', 'nofeas2') and any(k.startswith('lp_') for k in fired)
        maskable = plan['kind'] in ('single', 'nofeas', 'basis')

        if got['end'] == 'error':
            if maskable or not fired:
                raise Violation('not-masked', f"{plan['kind']} ({fired}) stops the analysis: {got['error']}")

            reported += 1
            continue

        if persistent and plan['kind'] != 'nofeas2':
            raise Violation('unreported', f"{plan['kind']} ({fired}) does not stop the analysis (it ends with '{got['end']}')")

        diff = trace.difference(base, got, TOL, ce=False)

        if not diff and got.get('bad_ce'):
            diff = f"wrong counterexample: {got['bad_ce']}"

        if diff:
            if close_call(case, base):
                raise Skip('close call')
            raise Violation('wrong-answer', f"with {plan['kind']} ({fired}) the answer differs (without faults first): {diff}")

        masked += bool(fired)

    return {'h': case['h'], 'sim_steps': len(base['steps']) * len(case['plans']), 'lp_calls': lp, 'masked': masked,
            'reported': reported, 'sched': [p['kind'] for p in case['plans']],
            'nontrivial': masked + reported > 0 and len(base['steps']) > 4}
