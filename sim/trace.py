'''
What an analysis did, step by step, in a form that can be compared between runs and sent between processes.
'''

import numpy as np

from sim import ref
from sim.monitor import MAX_COLS, TooLarge

LIMIT = 2000.0

def supports(lpi, dims):
    'extent of the current-time variables in some directions'

    raw = ref.RawLP.copy_of(lpi)
    rv = []
    dirs = [[1.0 if i == j else 0.0 for j in range(dims)] for i in range(dims)]

    if dims > 1:
        dirs.append([1.0 / (1 + i) * (-1) ** i for i in range(dims)])
        dirs.append([1.0] * dims)

    for d in dirs:
        for sign in (1.0, -1.0):
            vec = [sign * x for x in d]
            st, val, _ = raw.maximize(vec, lpi.cur_vars_offset)

            if st == 'unbounded':
                rv.append(None)
            elif st == 'opt':
                rv.append(val)
            else:
                rv.append('empty')

    return rv

def counterexample(result):
    'counterexample as lists'

    rv = []

    for seg in result.counterexample or []:
        rv.append({'mode': seg.mode.name, 'start': [float(x) for x in seg.start], 'end': [float(x) for x in seg.end],
                   'steps': int(seg.steps), 'out': None if seg.outgoing_transition is None else seg.outgoing_transition.name,
                   'inputs': [[float(x) for x in i] for i in seg.inputs],
                   'reset': [float(x) for x in seg.reset_minkowski_vars]})

    return rv

class Trace:
    'recorder: pass each() to World.run()'

    def __init__(self, sets=True):
        self.sets = sets
        self.steps = []
        self.seen = {}
        self.over = False

    def each(self, core, when):
        'hook'

        if when == 'pre':
            self.over = core.is_finished() # steps after the end do nothing
            return

        if self.over:
            return

        dag = core.aggdag
        s = dag.get_cur_state()
        rec = {'waiting': [[op.poststate.mode.name] + [int(x) for x in op.poststate.cur_steps_since_start]
                           for op in dag.waiting_list],
               'err': [bool(core.result.has_aggregated_error), bool(core.result.has_concrete_error)],
               'replay': bool(dag.deagg_man.doing_replay())}

        if s is not None:
            rec['cur'] = [s.mode.name, int(s.cur_step_in_mode)] + [int(x) for x in s.cur_steps_since_start] + \
                         [bool(s.is_concrete)]

            if s.lpi.get_num_cols() > MAX_COLS:
                raise TooLarge()

            if self.sets:
                rec['sup'] = supports(s.lpi, s.lpi.dims)

                if any(isinstance(v, float) and abs(v) > LIMIT for v in rec['sup']):
                    raise TooLarge()

        self.steps.append(rec)

    def result(self, end, core):
        'everything'

        rv = {'end': end, 'steps': self.steps}

        if core is not None and end == 'done':
            res = core.result
            rv['verdict'] = [bool(res.has_aggregated_error), bool(res.has_concrete_error)]
            rv['ce'] = counterexample(res)
            rv['timers'] = timers(res.top_level_timer)

        return rv

def timers(td):
    'names and numbers of calls of the reported timers'

    return None if td is None else [td.name, td.num_calls, [timers(c) for c in td.children]]

def same_number(a, b, tol):
    'equal up to tolerance?'

    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))

    return a == b

def same_numbers(a, b, tol):
    'lists of numbers'
    return len(a) == len(b) and all(same_number(x, y, tol) for x, y in zip(a, b))

def difference(a, b, tol=1e-6, ce=True, also=()):
    '''first difference between two results (None if there is none)

    ce: also compare counterexamples number by number
    also: keys of other things to compare
    '''

    if a['end'] != b['end']:
        return f"one ended with '{a['end']}', the other with '{b['end']}'"

    for i, (x, y) in enumerate(zip(a['steps'], b['steps'])):
        for key in ('cur', 'waiting', 'err', 'replay'):
            if x.get(key) != y.get(key):
                return f"step {i}: '{key}' is {x.get(key)} and {y.get(key)}"

        if not same_numbers(x.get('sup', []), y.get('sup', []), tol):
            return f"step {i}: the sets {x['cur']} have extents {x['sup']} and {y['sup']}"

    if len(a['steps']) != len(b['steps']):
        return f"{len(a['steps'])} and {len(b['steps'])} steps"

    if a.get('verdict') != b.get('verdict'):
        return f"verdicts {a.get('verdict')} and {b.get('verdict')} (aggregated error, concrete error)"

    if ce and 'ce' in a:
        diff = ce_difference(a['ce'], b['ce'], tol)

        if diff:
            return diff

    for key in also:
        if a.get(key) != b.get(key):
            return f"'{key}' is {a.get(key)} and {b.get(key)}"

    return None

def ce_difference(a, b, tol):
    'difference of counterexamples'

    if len(a) != len(b):
        return f'counterexamples with {len(a)} and {len(b)} segments'

    for i, (x, y) in enumerate(zip(a, b)):
        for key in ('mode', 'steps', 'out'):
            if x[key] != y[key]:
                return f"counterexample segment {i}: '{key}' is {x[key]} and {y[key]}"

        for key in ('start', 'end', 'reset'):
            if not same_numbers(x[key], y[key], tol):
                return f"counterexample segment {i}: '{key}' is {x[key]} and {y[key]}"

        if len(x['inputs']) != len(y['inputs']) or \
           not all(same_numbers(p, q, tol) for p, q in zip(x['inputs'], y['inputs'])):
            return f'counterexample segment {i}: different inputs'

    return None

def lp_digest(lpi):
    'matrices of a problem'

    G, g, E, e = ref.RawLP.copy_of(lpi).matrices()
    return [np.asarray(v).tolist() for v in (G, g, E, e)]
