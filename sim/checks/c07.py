'''C07: an analysis interrupted anywhere leaves nothing behind'''

import random

from sim import faults, gen
from sim.util import HarnessError, Skip, Violation

TOL = 1e-7
TWIN = None
BUDGET = 60
WAITING = 20

EXCS = ('KeyboardInterrupt', 'MemoryError', 'OSError')

def prepare():
    'start the second process'

    global TWIN # pylint: disable=global-statement
    from sim.twin import Twin
    TWIN = Twin('C07')

def generate(rng, tier):
    'a case'

    case = gen.mixed_case(rng, max_steps=8, zero=0.15, clock=0.35)
    case['set']['tt'] = rng.random() < 0.55

    splitting = rng.random() < 0.3

    if splitting: # which keeps more things to be done
        case = gen.random_case(rng, max_steps=10, error=1.0, self_loop=0.35, true_guard=0.15, eq_guard=0.02, multi_init=0.25)
        case['set'].update(tt=False, stop_con=rng.random() < 0.2, stop_agg=False)
        case['strat'].update(kind=rng.choice(['sim', 'stock']), group=rng.choice(['path', 'path', 'mode']),
                             agg=rng.choice(['box', 'arnoldi', 'chull', 'mix']), deagg=True)

        if rng.random() < 0.5:
            case = gen.chain_case(rng)

    case['faults'] = []
    case['plot'] = gen.random_plot(rng, case) if rng.random() < 0.25 else None
    case['events'] = gen.random_events(rng, 10) if case['plot'] else []
    other = gen.mixed_case(rng, max_steps=6, max_modes=3, clock=0.3)
    other['faults'] = []
    other['plot'] = None
    case['other'] = other if rng.random() < 0.7 else None
    case['other_first'] = rng.random() < 0.5
    aborts = []

    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(['call', 'call', 'call', 'lp', 'lp', 'lpfail', 'lp', 'write', 'step', 'frame', 'change'])

        if splitting and rng.random() < 0.5:
            kind = 'change'

        aborts.append({'kind': kind, 'exc': rng.choice(EXCS), 'frac': round(rng.random() ** rng.choice([1, 1, 3]), 5),
                       'ha': 'other' if rng.random() < 0.15 else 'same', 'setup_only': rng.random() < 0.15})

    case['aborts'] = aborts
    case['verbose'] = rng.choice([0, 1, 2, 3])
    case['sim'] = rng.random() < 0.12
    case['boxes'] = [round(rng.uniform(-1, 1), 3) for _ in range(6)]

    return case

def simulable(case):
    'can the automaton be simulated?'

    if any(m['B'] is not None for m in case['modes']) or any(t.get('M') is not None for t in case['trans']):
        return False

    return case['modes'][case['init'][0]['mode']]['A'] is not None

def analysis(w, case, each=None, on_start=None):
    'the analysis'

    from sim import ui
    from sim.seams import SIM

    SIM.ui = ui.Display(case.get('events', [])) if case.get('plot') else None

    try:
        return w.run(each, on_start, budget=BUDGET, max_waiting=WAITING)
    finally:
        SIM.ui = None

def close_figures():
    'windows are closed by the user'

    import matplotlib.pyplot as plt
    plt.close('all')

def baseline(case):
    'in an untouched process: what the analysis does, and how many points of interruption there are'

    from sim import trace, world
    from sim.seams import SIM, running

    rv = []

    for c in (case, case['other']):
        if c is None or not world.usable(c):
            rv.append(None)
            continue

        SIM.reset()

        with running():
            w = world.World(dict(c, set=dict(c['set'], stdout=case['verbose'])))
            tr = trace.Trace()
            end = analysis(w, c, tr.each)

        res = dict(tr.result(end, w.core), writes=SIM.writes)
        SIM.reset()

        # once more, to count
        from sim.executor import in_fork
        kind, counts = in_fork(lambda c=c: count(case, c))

        if kind != 'ok':
            raise HarnessError('counting failed')

        res['counts'] = counts
        rv.append(res)
        close_figures()

    return rv

def count(case, c):
    'number of points of interruption of each kind'

    from sim import world
    from sim.seams import SIM, running

    steps = [0]
    changes, replays, waits = [], [], []
    last = [None]
    SIM.reset()

    def each(core, _when):
        'called before and after each step'

        cur = core.aggdag.get_cur_state()

        if cur is not last[0]:
            last[0] = cur
            changes.append(steps[0])

        splits = getattr(core.aggdag, 'deagg_man', None) # (only to find interesting points)

        if getattr(splits, 'waiting_nodes', None):
            waits.append(steps[0])
        elif getattr(splits, 'replay_step', None) is not None:
            replays.append(steps[0])

        steps[0] += 1

    with running(profile=True):
        w = world.World(dict(c, set=dict(c['set'], stdout=case['verbose'])))
        first = SIM.call_events
        analysis(w, c, each)

    return {'call': [first, SIM.call_events], 'lp': [0, SIM.lp_calls],
            'write': [0, SIM.writes], 'step': [0, steps[0]], 'frame': [0, SIM.call_events // 50],
            'lpfail': [0, SIM.lp_calls], 'change': [p for p in (changes, replays, waits) if p]}

class StepFault(Exception):
    'a failure in code called at a step'

def abort(case, c, w, item, counts):
    '''an analysis which is interrupted; returns True if it was'''

    from sim import ui
    from sim.seams import EXC, SIM, running

    kind, exc = item['kind'], item['exc']

    if kind == 'frame' and not c.get('plot'):
        kind = 'step'

    if kind == 'change': # where the analysis goes on with another set, or in the middle of a split
        kind = 'step'
        points = counts['change'][-1] if counts['change'] else [0]
        at = points[int(item['frac'] * (len(points) - 1))]
    else:
        low, high = counts[kind]
        at = low + int(item['frac'] * max(0, high - low - 1))

    SIM.reset_plans()
    expected = EXC[exc]
    seen = [0]

    def each(_core, _when):
        'hook'

        seen[0] += 1

        if kind == 'step' and seen[0] > at:
            SIM.fire('interrupt_step_' + exc)
            raise expected('simulated at a step')

    if kind == 'call':
        SIM.call_fault = (at, exc)
    elif kind == 'lp':
        SIM.lp_faults[at] = {'exc': exc}
    elif kind == 'lpfail':
        for i in range(at, at + 400):
            SIM.lp_faults[i] = {'code': 'EFAIL'}
        expected = RuntimeError
    elif kind == 'write':
        SIM.write_fault[at] = exc

    before = sum(v for k, v in SIM.fired.items() if k.startswith(('interrupt', 'write', 'display', 'lp_EFAIL')))
    got = None
    end = None

    with running(profile=kind == 'call'):
        try:
            if item['setup_only']:
                end = w.setup()
            else:
                SIM.ui = ui.Display(c.get('events', []), fail={'at': max(0, int(item['frac'] * 12)), 'exc': exc}
                                    if kind == 'frame' else None) if c.get('plot') else None
                end = w.run(each, budget=BUDGET, max_waiting=WAITING)
        except (KeyboardInterrupt, MemoryError, OSError, RuntimeError) as e:
            got = e
        finally:
            SIM.ui = None

    fired = sum(v for k, v in SIM.fired.items() if k.startswith(('interrupt', 'write', 'display', 'lp_EFAIL'))) > before

    if fired and got is None:
        raise Violation('swallowed', f"{expected.__name__} raised at {kind} point {at} did not reach the caller; the analysis "
                        f"went on to '{end}'")

    if got is not None and (not fired or not isinstance(got, expected)):
        raise Violation('wrong-exception', f'{type(got).__name__}: {str(got)[:200]} instead of {expected.__name__} '
                        f'(at {kind} point {at}, injected: {fired})')

    SIM.reset_plans()
    close_figures()
    w.restart()

    return fired

def run(case):
    'run a case'

    from sim import trace, world
    from sim.executor import in_fork
    from sim.seams import SIM, running, seed_global_random

    if not world.usable(case) or not case['aborts']:
        raise Skip('empty guard or invariant')

    kind, base = TWIN.ask('baseline', case) if TWIN is not None else in_fork(lambda: baseline(case))

    if kind != 'ok':
        if kind == 'exit' and base != 3:
            raise HarnessError(f'twin: {kind} {base}')
        raise Violation('exception-baseline', f'the analysis fails in a fresh process: {kind} {base}')

    SIM.reset()
    verbose = lambda c: dict(c, set=dict(c['set'], stdout=case['verbose']))
    worlds = {}
    counts = {}
    interrupted = 0

    with running():
        worlds['same'] = world.World(verbose(case))
        counts['same'] = base[0]['counts']

        if base[1] is not None:
            worlds['other'] = world.World(verbose(case['other']))
            counts['other'] = base[1]['counts']

    for item in case['aborts']:
        which = item['ha'] if item['ha'] in worlds else 'same'
        interrupted += abort(case, case if which == 'same' else case['other'], worlds[which], item, counts[which])

    order = ['same', 'other'] if not case['other_first'] else ['other', 'same']
    steps = 0

    for which in order:
        if which not in worlds:
            continue

        c = case if which == 'same' else case['other']
        want = dict(base[0] if which == 'same' else base[1])
        want.pop('counts')
        w = worlds[which]
        tr = trace.Trace()

        with running():
            seed_global_random(random.Random(interrupted).randrange(10**6))
            writes = SIM.writes
            end = analysis(w, c, tr.each)

        got = dict(tr.result(end, w.core), writes=SIM.writes - writes)
        diff = trace.difference(want, got, TOL,
                                also=('timers', 'writes') if not c.get('plot') else ())
        close_figures()
        w.restart()
        steps += len(tr.steps)

        if diff:
            raise Violation('left-behind', f'the {which} automaton, after {interrupted} aborted analyses '
                            f'(fresh process first): {diff}')

    return {'h': case['h'], 'sim_steps': steps, 'lp_calls': SIM.lp_calls + SIM.lp_total, 'interrupted': interrupted,
            'sched': [[a['kind'], a['exc']] for a in case['aborts']], 'truncated': end == 'cut',
            'nontrivial': interrupted > 0 and steps > 4}
