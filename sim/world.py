'''
Builds the real hylaa objects of a case and runs them under the simulator.
'''

import numpy as np

from sim import ref
from sim.monitor import TooLarge
from sim.seams import SIM, Stuck
from sim.util import Schedule, Skip

from hylaa import lputil
from hylaa.aggstrat import Aggregated, AggregationStrategy, AggType, Unaggregated
from hylaa.core import Core
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.stateset import StateSet

def usable(case):
    'are the parts of a case well-formed (non-empty guards, invariants, inputs)?'

    def nonempty(rows, rhs):
        return not rows or ref.RefSet.constraints(rows, rhs).feasible(1e-7) is True

    for m in case['modes']:
        if m['A'] is None:
            continue

        if not nonempty(m['inv'], m['invr']):
            return False

    for t in case['trans']:
        if t['G'] and ref.RefSet.constraints(t['G'], t['g'])._lp(0).maximize([0.0])[0] != 'opt':
            return False

    return True

def build_ha(case):
    'the automaton'

    ha = HybridAutomaton()
    modes = []

    for m in case['modes']:
        mode = ha.new_mode(m['name'])
        modes.append(mode)

        if m['A'] is None:
            continue

        mode.set_dynamics(np.array(m['A'], dtype=float))

        if m.get('B') is not None:
            mode.set_inputs(np.array(m['B'], dtype=float), np.array(m['Uc'], dtype=float), np.array(m['Ur'], dtype=float),
                            allow_constants=True)

        if m['inv']:
            mode.set_invariant(np.array(m['inv'], dtype=float), np.array(m['invr'], dtype=float))

    for i, t in enumerate(case['trans']):
        trans = ha.new_transition(modes[t['from']], modes[t['to']], f't{i}')

        if t['G']:
            trans.set_guard(np.array(t['G'], dtype=float), np.array(t['g'], dtype=float))
        else:
            trans.set_guard_true()

        if t['M'] is not None:
            trans.set_reset(np.array(t['R'], dtype=float) if t['R'] is not None else None,
                            None if t.get('Mnone') else np.array(t['M'], dtype=float),
                            np.array(t['C'], dtype=float), np.array(t['r'], dtype=float))
        elif t['R'] is not None:
            trans.set_reset(np.array(t['R'], dtype=float))

    return ha, modes

def build_init(case, modes):
    'list of initial StateSets'

    rv = []

    for s in case['init']:
        mode = modes[s['mode']]

        if s['kind'] == 'box':
            lpi = lputil.from_box([list(b) for b in s['b']], mode)
        elif s['kind'] == 'con':
            lpi = lputil.from_constraints(np.array(s['A'], dtype=float), np.array(s['b'], dtype=float), mode)
        else:
            lpi = lputil.from_zonotope(list(s['c']), [list(g) for g in s['gens']], mode)

        rv.append(StateSet(lpi, mode))

    return rv

def ref_init(s):
    'reference for an initial set'

    if s['kind'] == 'box':
        return ref.RefSet.box(s['b'])
    if s['kind'] == 'con':
        return ref.RefSet.constraints(s['A'], s['b'])

    return ref.RefSet.zonotope(s['c'], s['gens'])

class SimStrategy(Aggregated):
    '''aggregation strategy whose decisions come from the schedule

    group: 'none' (never merge), 'path' (same mode, parent and transition), 'mode' (anything in the same mode)
    '''

    def __init__(self, spec, sched):
        self.spec = spec
        self.sched = sched
        self.max_splits = spec.get('max_splits', 10**9)
        self.splits = 0

        agg = {'box': Aggregated.AGG_BOX, 'arnoldi': Aggregated.AGG_ARNOLDI_BOX, 'chull': Aggregated.AGG_CONVEX_HULL,
               'mix': Aggregated.AGG_ARNOLDI_BOX}[spec['agg']]
        Aggregated.__init__(self, agg, spec['deagg'])
        self.add_guard = spec['add_guard']
        self.require_same_path = spec['group'] != 'mode'
        self.deagg_preference = spec['pref']
        self.pop_type = spec['pop']

    def pop_waiting_list(self, waiting_list):
        'schedule decides what is taken, and what is merged with it'

        first = waiting_list[self.sched.choose(len(waiting_list), 'pop')]

        if self.spec['group'] == 'none':
            return [first]

        rv = []

        for op in waiting_list:
            if op is first:
                rv.append(op)
                continue

            if op.poststate.mode is not first.poststate.mode:
                continue

            # an initial set is popped alone, whatever it comes with
            if (op.parent_node is None or first.parent_node is None) and self.spec['group'] == 'path':
                continue

            if self.spec['group'] == 'path' and \
               (op.transition is not first.transition or op.parent_node is not first.parent_node):
                continue

            if self.sched.choose(8, 'merge') < 7:
                rv.append(op)

        if self.spec['group'] == 'mode' and len(rv) > 1 and self.sched.choose(4, 'order') == 0:
            rv.reverse()

        return rv

    def get_agg_type(self, op_list):
        'schedule decides the kind of merge'

        guard = self.spec['add_guard']

        if self.spec['agg'] == 'mix':
            k = self.sched.choose(3, 'aggtype')
            return AggType(k == 0, k == 1, k == 2, guard)

        return Aggregated.get_agg_type(self, op_list)

def build_strategy(case, sched):
    'aggregation strategy of a case'

    s = case['strat']

    if s['kind'] == 'sim':
        return SimStrategy(s, sched)
    if s['kind'] == 'unagg':
        return Unaggregated()
    if s['kind'] == 'base':
        return AggregationStrategy()

    agg = {'box': Aggregated.AGG_BOX, 'arnoldi': Aggregated.AGG_ARNOLDI_BOX, 'chull': Aggregated.AGG_CONVEX_HULL,
           'mix': Aggregated.AGG_ARNOLDI_BOX}[s['agg']]
    rv = Aggregated(agg, s['deagg'])
    rv.add_guard = s['add_guard']
    rv.require_same_path = s['group'] != 'mode'
    rv.deagg_preference = s['pref']
    rv.pop_type = s['pop']
    return rv

def build_settings(case, sched):
    'HylaaSettings of a case'

    h, N = case['h'], case['N']
    s = case['set']
    rv = HylaaSettings(h, case.get('T') or h * (N - 0.5))
    assert case.get('T') or rv.num_steps == N
    rv.process_urgent_guards = s['urgent']
    rv.do_guard_strengthening = s['strengthen']
    rv.optimize_tt_transitions = s['tt']
    rv.approx_model = s['approx']
    rv.skip_zero_dynamics_modes = s['skip0']
    rv.stop_on_aggregated_error = s['stop_agg']
    rv.stop_on_concrete_error = s['stop_con']
    rv.make_counterexample = s['ce']
    rv.stdout = s['stdout']
    rv.random_seed = s['seed']
    rv.aggstrat = build_strategy(case, sched)

    if case.get('plot'):
        build_plot(rv, case['plot'])

    return rv

def build_plot(settings, p):
    'plot settings from a description'

    def dims(spec):
        'plotted dimension: number, None (time), direction (list) or dict with directions for each mode'

        if isinstance(spec, dict):
            return {k: dims(v) for k, v in spec.items()}
        if isinstance(spec, list):
            return np.array(spec, dtype=float)

        return spec

    plot = settings.plot
    plot.plot_mode = p['mode']
    plot.store_plot_result = p.get('store', False)
    plot.filename = p.get('filename')
    plot.plot_size = (2, 2)

    if len(p['dims']) == 1 and not p.get('lists'):
        plot.xdim_dir, plot.ydim_dir = dims(p['dims'][0][0]), dims(p['dims'][0][1])
    else:
        plot.xdim_dir = [dims(d[0]) for d in p['dims']]
        plot.ydim_dir = [dims(d[1]) for d in p['dims']]

        from hylaa.settings import LabelSettings
        plot.label = [LabelSettings() for _ in p['dims']]

    if p.get('limits'):
        for lab in plot.label if isinstance(plot.label, list) else [plot.label]:
            lab.axes_limits = tuple(p['limits'])

    plot.num_angles = p.get('angles', 512)
    plot.draw_stride = p.get('stride', 1)
    plot.use_markers_for_small = p.get('markers', True)
    plot.grid = p.get('grid', True)
    plot.interactive_skip_count = p.get('skip', 0)
    plot.video_extra_frames = p.get('extra', 2)
    plot.video_pause_frames = p.get('pause', 2)
    plot.video_show_frame = p.get('show_frame', True)

    if p.get('marks'): # the user's own drawings: a list for the first subplot, or a list for each
        from matplotlib.collections import LineCollection
        made = [[LineCollection([[tuple(a), tuple(b)]]) for a, b in lines] for lines in p['marks']]
        plot.extra_collections = made[0] if len(made) == 1 else made

    if p.get('writer', True):
        plot.make_video_writer_func = lambda: None

class Cutoff(Exception):
    'the run used up its budget'

class SteppedCore(Core):
    'the real analysis; the simulator is called before and after every step'

    each = None
    budget = 400
    max_waiting = 60
    made = 0
    on_start = None

    def do_step(self):
        'a step'

        if self.made == 0 and self.on_start:
            self.on_start(self)

        over = self.made >= self.budget or not self.doing_simulation and len(self.aggdag.waiting_list) > self.max_waiting

        if over and not self.is_finished(): # with a draw stride, a finished analysis is asked for steps
            raise Cutoff()

        self.made += 1

        if self.each:
            self.each(self, 'pre')

        Core.do_step(self)

        if self.each:
            self.each(self, 'post')

class World:
    'one analysis: real objects'

    def __init__(self, case, ha_modes=None, settings=None):
        self.case = case
        self.sched = Schedule(case['sched'])
        self.ha, self.modes = build_ha(case) if ha_modes is None else ha_modes
        self.settings = build_settings(case, self.sched) if settings is None else settings
        self.core = None
        self.early = None # to run an analysis object which was made some time ago

    def restart(self):
        'the schedule starts again (for another analysis with the same settings)'

        self.sched.pos = 0
        self.sched.trace = []

    def setup(self):
        'set up the computation; returns False if there is nothing to do'

        self.core = Core(self.ha, self.settings)
        init = build_init(self.case, self.modes)

        try:
            self.core.setup(init)
        except RuntimeError as e:
            if 'No feasible initial states' in str(e):
                return False
            raise

        return True

    def run(self, each=None, on_start=None, budget=400, max_waiting=60):
        '''run from the main entry point; returns 'done', 'cut' or 'nothing' (no feasible initial states)'''

        self.core = SteppedCore(self.ha, self.settings) if self.early is None else self.early
        self.early = None
        self.core.each, self.core.on_start = each, on_start
        self.core.budget, self.core.max_waiting = budget, max_waiting
        init = build_init(self.case, self.modes)

        try:
            self.core.run(init)
        except (Cutoff, TooLarge):
            return 'cut'
        except RuntimeError as e:
            if 'No feasible initial states' in str(e):
                return 'nothing'
            raise

        return 'done'

    def drive(self, budget=400, each=None, max_waiting=60):
        '''step until finished; returns True if finished, False if cut off by the budget

        each: called before and after every step: each(core, 'pre'), each(core, 'post')
        '''

        core = self.core
        n = 0

        while not core.is_finished():
            if n >= budget or len(core.aggdag.waiting_list) > max_waiting:
                return False

            n += 1

            if each:
                each(core, 'pre')

            try:
                core.do_step()

                if each:
                    each(core, 'post')
            except TooLarge:
                return False

        return True

__all__ = ['World', 'usable', 'build_ha', 'build_init', 'build_settings', 'ref_init', 'SimStrategy', 'SIM', 'Stuck', 'Skip',
           'HylaaSettings', 'PlotSettings']
