'''C10: the clock never influences the result, and timing reports add up'''

import re

from sim import faults, gen
from sim.util import Skip, Violation

TOL = 1e-6

def generate(rng, tier):
    'a case'

    case = gen.mixed_case(rng, max_steps=9)
    case['faults'] = []
    clocks = ['stall', 'fast', 'jumps', 'backwards', 'mixed', 'tiny', 'freeze_late', 'normal']
    case['clocks'] = [{'kind': rng.choice(clocks), 'seed': rng.randrange(10**6), 'stdout': rng.choice([0, 1, 2, 2, 3, 3])}
                      for _ in range(rng.choice([1, 1, 2]))]
    case['plot'] = gen.random_plot(rng, case) if rng.random() < 0.25 else None
    case['events'] = gen.random_events(rng, 8) if case['plot'] else []

    if case['plot'] and case['plot']['mode'] == 2: # frames while paused
        case['events'] = [[rng.choice(['step', 'next', 'nothing', 'nothing', 'nothing']), 0] for _ in range(rng.randint(5, 30))]

    case['same_process'] = rng.random() < 0.5

    return case

def clock_of(plan):
    'function from read index to increment'

    import random
    rng = random.Random(plan['seed']) # readings are numbered one after the other
    kind, seed = plan['kind'], plan['seed']

    if kind == 'tiny':
        return lambda i: 1e-12
    if kind == 'freeze_late':
        stop = seed % 200
        return lambda i: 0.3 if i < stop else 0.0
    if kind == 'mixed':
        return lambda i: rng.choice([0.0, 0.0, 1e-9, 1e-3, 1.0, 1e4])
    if kind == 'jumps':
        return lambda i: 1e5 if rng.random() < 0.1 else 0.001
    if kind == 'backwards':
        return lambda i: -40.0 if rng.random() < 0.2 else 0.5

    return faults.clock_plan(kind)

def monotone(plan):
    'does the clock never go back?'
    return plan['kind'] != 'backwards'

class Shadow:
    'notes every start and stop of a timer, with the clock before and after'

    def __init__(self):
        self.stack = []
        self.totals = {}      # path -> [smallest, largest, calls]
        self.problem = None

    def install(self):
        'wrap the timers; returns a function which removes the wrappers'

        from hylaa.timerutil import Timers
        from sim.seams import SIM

        tic, toc, reset = Timers.tic, Timers.toc, Timers.reset

        def bounds(before, reads):
            'smallest and largest time which can have been read since'

            if SIM.clock_reads == reads + 1:
                return SIM.clock, SIM.clock

            return min(before, SIM.clock), max(before, SIM.clock)

        def new_tic(name):
            'start'

            before, reads = SIM.clock, SIM.clock_reads
            tic(name)
            self.stack.append((name,) + bounds(before, reads))

        def new_toc(name):
            'stop'

            before, reads = SIM.clock, SIM.clock_reads
            toc(name)
            low, high = bounds(before, reads)

            if self.stack and self.stack[-1][0] == name:
                path = tuple(s[0] for s in self.stack)
                _, low0, high0 = self.stack.pop()
                t = self.totals.setdefault(path, [0.0, 0.0, 0])
                t[0] += low - high0
                t[1] += high - low0
                t[2] += 1
            else:
                self.problem = f"timer '{name}' was stopped while {[s[0] for s in self.stack]} were running"

        def new_reset():
            'forget'

            reset()
            self.stack = []

            # at the start of an analysis
            self.totals = {} if not self.kept() else self.totals

        Timers.tic, Timers.toc, Timers.reset = staticmethod(new_tic), staticmethod(new_toc), staticmethod(new_reset)

        def remove():
            'remove the wrappers'
            Timers.tic, Timers.toc, Timers.reset = staticmethod(tic), staticmethod(toc), staticmethod(reset)

        return remove

    def kept(self):
        'has an analysis finished?'
        return ('total',) in self.totals

def check_tree(td, shadow, mono, path=()):
    'compare the reported timers with what really happened'

    path = path + (td.name,)

    if td.last_start_time is not None:
        raise Violation('timer-running', f"timer {'.'.join(path)} was never stopped")

    seen = shadow.totals.get(path)
    slack = 1e-6 + 1e-9 * abs(td.total_secs)

    if seen is not None:
        if td.num_calls != seen[2]:
            raise Violation('timer-calls', f"timer {'.'.join(path)} reports {td.num_calls} calls, there were {seen[2]}")

        if not seen[0] - slack <= td.total_secs <= seen[1] + slack:
            raise Violation('timer-sum', f"timer {'.'.join(path)} reports {td.total_secs} s, its intervals sum to between "
                            f'{seen[0]} and {seen[1]}')

    names = [c.name for c in td.children]

    if len(set(names)) != len(names):
        raise Violation('timer-tree', f"timer {'.'.join(path)} has two children of the same name: {names}")

    if mono and sum(c.total_secs for c in td.children) > td.total_secs + slack:
        raise Violation('timer-sum', f"the parts of timer {'.'.join(path)} sum to more than its {td.total_secs} s")

    count = 1

    for c in td.children:
        count += check_tree(c, shadow, mono, path)

    return count

def one(case, plan):
    'a run under a clock; returns the result of the trace and some numbers'

    from hylaa.timerutil import Timers
    from sim import trace, ui, world
    from sim.seams import SIM, running

    case = dict(case)
    case['set'] = dict(case['set'])
    SIM.reset_plans()

    if plan is not None:
        case['set']['stdout'] = plan['stdout']
        SIM.clock_plan = clock_of(plan)
        SIM.fire('clock_' + plan['kind'])

    SIM.ui = ui.Display(case['events']) if case['plot'] else None
    SIM.text = []
    shadow = Shadow()
    times = {}
    shown = []

    with running():
        remove = shadow.install()

        try:
            w = world.World(case)
            tr = trace.Trace()

            def each(core, when):
                'hook'

                if when == 'pre' and 'first' not in times:
                    times['first'] = SIM.clock
                if when == 'post':
                    times['last'] = SIM.clock

                tr.each(core, when)

            if SIM.ui is not None:
                SIM.ui.on_frame = lambda anim, pressed: shown.append(w.core.made)

            before = SIM.clock
            end = w.run(each, budget=90, max_waiting=25)
            after = SIM.clock
        finally:
            remove()

    res = tr.result(end, w.core)
    count = 0

    if end == 'done':
        mono = plan is None or monotone(plan)

        if shadow.problem:
            raise Violation('timer-order', shadow.problem)

        if Timers.stack or shadow.stack:
            raise Violation('timer-running', f'{[t.name for t in Timers.stack]} are still running after the analysis')

        top = w.core.result.top_level_timer

        if top is None:
            raise Violation('timer-total', 'no total time is reported')

        count = check_tree(top, shadow, mono)
        slack = 1e-6 + 1e-9 * abs(top.total_secs)

        if mono and not times['last'] - times['first'] - slack <= top.total_secs <= after - before + slack:
            raise Violation('timer-total', f'the reported total is {top.total_secs} s, but the analysis took between '
                            f"{times['last'] - times['first']} and {after - before} s")

        m = re.search(r'Total Runtime: (-?[0-9.]+) sec', ''.join(SIM.text))

        if m and abs(float(m.group(1)) - top.total_secs) > 0.0051 + slack:
            raise Violation('timer-total', f'{m.group(1)} s are printed, but the total is {top.total_secs}')

        if case['set']['stdout'] >= 1 and not m:
            raise Violation('timer-total', 'no total time is printed')

    res['shown'] = shown

    return res, count, end

def run(case):
    'run a case'

    from sim import trace, world
    from sim.executor import in_fork
    from sim.seams import SIM

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()

    def baseline():
        'in another process'

        try:
            res, count, end = one(case, None)
        except Violation as e:
            return {'violation': [e.cls, e.msg]}

        return {'res': res, 'count': count, 'end': end}

    kind, base = in_fork(baseline)

    if kind != 'ok':
        raise Violation('exception-baseline', f'the run with an ordinary clock failed: {kind} {base}')
    if 'violation' in base:
        raise Violation(*base['violation'])

    out = {'h': case['h'], 'lp_calls': 0, 'sim_steps': 0, 'timers': base['count'], 'nontrivial': False,
           'truncated': base['end'] == 'cut', 'runs': 1}

    for plan in case['clocks']:
        def other(plan=plan):
            'in another process'

            try:
                return {'res': one(case, plan)[0], 'fired': SIM.fired}
            except Violation as e:
                return {'violation': [e.cls, e.msg], 'fired': SIM.fired}
            except Exception as e: # pylint: disable=broad-except
                from sim.executor import _short_tb
                return {'violation': [f'exception-{type(e).__name__}',
                                      f"clock '{plan['kind']}': {type(e).__name__}: {e} at {_short_tb(e)}"]}

        if case['same_process']:
            got = {'res': one(case, plan)[0]}
        else:
            kind, got = in_fork(other)

            if kind != 'ok':
                raise Violation('crash', f'{kind} {got}')

            for k, v in got.get('fired', {}).items():
                SIM.fired[k] = SIM.fired.get(k, 0) + v

            if 'violation' in got:
                raise Violation(*got['violation'])

        diff = trace.difference(base['res'], got['res'], TOL)

        if diff:
            raise Violation('clock-dependent', f"with clock '{plan['kind']}' and stdout {plan['stdout']}: {diff}")

        for i, (a, b) in enumerate(zip(base['res']['shown'], got['res']['shown'])):
            if a != b:
                raise Violation('clock-dependent', f"with clock '{plan['kind']}', frame {i} is drawn after {b} steps instead of {a}")

        out['frames'] = out.get('frames', 0) + len(got['res']['shown'])
        out['runs'] += 1
        out['sim_steps'] += len(got['res']['steps'])
        out['nontrivial'] = len(got['res']['steps']) > 5

    return out
