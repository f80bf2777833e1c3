'''C08: the result depends only on the inputs, not on what ran before or alongside'''

import copy
import gc
import random

from sim import faults, gen
from sim.util import HarnessError, Skip, Violation

TOL = 1e-7
TWIN = None
BUDGET = 90

def prepare():
    'start the second process'

    global TWIN # pylint: disable=global-statement
    from sim.twin import Twin
    TWIN = Twin('C08')

def small_other(rng):
    'another world'

    case = gen.mixed_case(rng, max_steps=7, max_modes=3)
    case['faults'] = []
    case['plot'] = gen.random_plot(rng, case) if rng.random() < 0.1 else None

    return case

def cousin(rng, case):
    'an automaton with the same modes and transitions (and names) but other dynamics or conditions'

    rv = copy.deepcopy(case)
    rv['before'] = []
    pick = rng.choice(['dynamics', 'dynamics', 'conditions', 'both'])

    for m in rv['modes']:
        if m['A'] is None or rng.random() < 0.2:
            continue

        n = len(m['A'])

        if pick != 'conditions':
            kind = rng.choice(['zero', 'rot', 'clock', 'int', 'stable', 'random', 'transpose', 'scale'])

            if kind == 'transpose':
                m['A'] = [list(col) for col in zip(*m['A'])]
            elif kind == 'scale':
                c = rng.choice([0.5, -1.0, 0.25])
                m['A'] = [[c * x for x in row] for row in m['A']]
            else:
                m['A'] = gen.make_a(rng, n, kind, case['h']).tolist()

            if m.get('B') is not None and rng.random() < 0.5:
                m['B'] = [[-0.5 * x for x in row] for row in m['B']]

        if pick != 'dynamics' and m['inv']:
            m['invr'] = [x + rng.choice([0.0, 0.5, 1.0]) for x in m['invr']]

    if pick != 'dynamics':
        for t in rv['trans']:
            t['g'] = [x + rng.choice([0.0, 0.0, 0.5, 1.0]) for x in t['g']]

    return rv

def variant(rng, case):
    'changes for another analysis of the same automaton'

    rv = {'h': rng.choice([case['h'], case['h'] * 2, case['h'] / 2, 0.3]), 'N': rng.randint(2, case['N'] + 3),
          'set': dict(case['set']), 'strat': dict(case['strat']), 'sched': [rng.randrange(1000) for _ in range(10)],
          'init': rng.choice([[0], [len(case['init']) - 1], list(range(len(case['init'])))])}

    for key in ('urgent', 'strengthen', 'tt', 'skip0', 'stop_con', 'ce'):
        if rng.random() < 0.4:
            rv['set'][key] = not rv['set'][key]

    if rng.random() < 0.2:
        rv['set']['approx'] = rng.choice([0, 1])

    rv['set']['seed'] = rng.randrange(3)
    rv['strat']['kind'] = rng.choice(['sim', 'stock', 'unagg'])
    rv['strat']['agg'] = rng.choice(['box', 'arnoldi', 'chull', 'mix'])
    rv['strat']['deagg'] = rng.random() < 0.5
    rv['strat']['group'] = rng.choice(['path', 'mode', 'none'])

    return rv

def generate(rng, tier):
    'a case'

    case = gen.mixed_case(rng, max_steps=9, zero=0.2, clock=0.3)
    case['set']['tt'] = rng.random() < 0.45
    case['faults'] = []
    before = []

    # (dynamics for which the directions of an aggregation are completed with random ones)
    if rng.random() < 0.15:
        for m in case['modes']:
            if m['A'] is not None and len(m['A']) > 1 and m.get('kind') != 'clock':
                c = rng.choice([0.5, -1.0, 0.25])
                m['A'] = [[c if i == j else 0.0 for j in range(len(m['A']))] for i in range(len(m['A']))]

        case['strat'].update({'agg': rng.choice(['arnoldi', 'mix']), 'kind': rng.choice(['sim', 'stock'])})

    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(['same', 'same', 'same', 'other', 'again', 'cousin', 'cousin'])

        if kind == 'same':
            before.append({'kind': kind, 'change': variant(rng, case)})
        elif kind == 'other':
            before.append({'kind': kind, 'case': small_other(rng)})
        elif kind == 'cousin':
            before.append({'kind': kind, 'case': cousin(rng, case)})
        else:
            before.append({'kind': kind})

        before[-1]['budget'] = rng.choice([60, 60, 3, 10, 25])

    case['before'] = before
    case['alongside'] = [small_other(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
    case['turns'] = [rng.randrange(4) for _ in range(rng.choice([0, 10, 40]))] if case['alongside'] else []
    case['random'] = rng.randrange(10**6)
    case['early'] = rng.random() < 0.3
    case['verbose'] = rng.choice([0, 1, 2, 3])
    case['junk'] = rng.choice([0, 0, 100, 5000])
    case['gc'] = rng.choice([0, 0, 1, 7])
    case['plot_first'] = gen.random_plot(rng, case, mode=rng.choice([1, 3])) if rng.random() < 0.08 else None

    return case

def baseline(case):
    'in an untouched process'

    from sim import trace, world
    from sim.seams import SIM, running

    SIM.reset()

    with running():
        w = world.World(case)
        tr = trace.Trace()
        end = w.run(tr.each, budget=BUDGET, max_waiting=25)

    return tr.result(end, w.core)

def run_before(case, item, shared):
    'an earlier analysis in this process'

    from sim import ui, world
    from sim.seams import SIM

    kind = item['kind']

    if kind in ('other', 'cousin'):
        c = item['case']

        if not world.usable(c):
            return

        SIM.ui = ui.Display([]) if c.get('plot') else None
        world.World(c).run(None, budget=item['budget'], max_waiting=25)
        SIM.ui = None
        return

    if kind == 'again':
        shared.restart()
        shared.run(None, budget=item['budget'], max_waiting=25)
        shared.restart()
        return

    c = dict(case)
    ch = item['change']
    c.update({'h': ch['h'], 'N': ch['N'], 'set': ch['set'], 'strat': ch['strat'], 'sched': ch['sched'],
              'init': [case['init'][i] for i in ch['init'] if i < len(case['init'])] or case['init']})
    world.World(c, ha_modes=(shared.ha, shared.modes)).run(None, budget=item['budget'], max_waiting=25)

class Alongside:
    'other analyses which advance between the steps of the main one'

    def __init__(self, cases, turns):
        from sim import world
        self.cores, self.turns, self.steps = [], list(turns), 0

        for c in cases:
            c = dict(c, plot=None)

            # (a failing setup would be an aborted analysis: that is another property)
            if world.usable(c) and world.World(c).setup():
                self.cores.append([world.World(c), False])

    def advance(self):
        'some steps of the others'

        if not self.turns:
            return

        for _ in range(self.turns.pop(0)):
            if not self.cores:
                return

            entry = self.cores.pop(0)
            w, started = entry

            if not started:
                if not w.setup():
                    continue
                entry[1] = True
            elif w.core.is_finished() or len(w.core.aggdag.waiting_list) > 40 or self.too_big(w.core):
                continue
            else:
                w.core.do_step()
                self.steps += 1

            self.cores.append(entry)

    @staticmethod
    def too_big(core):
        'stop an analysis which explodes'
        s = core.aggdag.get_cur_state()
        return s is not None and s.lpi.get_num_cols() > 150

def run(case):
    'run a case'

    import numpy as np
    from sim import trace, world
    from sim.executor import in_fork
    from sim.seams import SIM, running, seed_global_random

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    plain = {k: v for k, v in case.items() if k not in ('before', 'alongside', 'turns')}
    kind, base = TWIN.ask('baseline', plain) if TWIN is not None else in_fork(lambda: baseline(plain))

    if kind != 'ok':
        if kind == 'exit' and base != 3:
            raise HarnessError(f'twin: {kind} {base}')
        raise Violation('exception-baseline', f'the analysis fails in a fresh process: {kind} {base}')

    SIM.reset()
    junk = [object() for _ in range(case['junk'])]
    rng = random.Random(case['random'])
    main_case = dict(case, set=dict(case['set'], stdout=case['verbose']))

    with running():
        seed_global_random(case['random'])
        ha_modes = world.build_ha(case)
        shared = world.World(main_case, ha_modes=ha_modes)

        early = world.SteppedCore(shared.ha, shared.settings) if case['early'] else None

        for item in case['before']:
            run_before(case, item, shared)

        others = Alongside(case['alongside'], case['turns'])
        others.advance()
        seed_global_random(case['random'] + 1)
        junk = [bytearray(rng.randrange(1, 600)) for _ in junk]
        tr = trace.Trace()
        count = [0]

        def each(core, when):
            'hook'

            tr.each(core, when)
            count[0] += 1

            if when == 'pre':
                # (hylaa draws from the global generator: an analysis owns it while it runs)
                drawn = np.random.get_state()
                others.advance()
                np.random.set_state(drawn)

                if case['gc'] and count[0] % case['gc'] == 0:
                    gc.collect()
                    SIM.fire('gc_point')

        shared.early = early
        end = shared.run(each, budget=BUDGET, max_waiting=25)

    diff = trace.difference(base, tr.result(end, shared.core), TOL,
                            also=('timers',) if not case['alongside'] and not case.get('plot') else ())

    if diff:
        raise Violation('history-dependent', f'(fresh process first) {diff}')

    del junk
    kinds = [b['kind'] for b in case['before']]

    for k in kinds:
        SIM.fire('earlier_' + k)
    if others.steps:
        SIM.fire('alongside')

    return {'h': case['h'], 'sim_steps': len(tr.steps), 'lp_calls': SIM.lp_calls, 'sched': [kinds, case['turns']],
            'other_steps': others.steps, 'truncated': end == 'cut', 'earlier': len(kinds),
            'nontrivial': len(tr.steps) > 4 and bool(kinds or others.steps)}
