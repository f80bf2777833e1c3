'''C09: plotting and user events never change the analysis; plot data match the sets'''

import numpy as np

from sim import faults, gen, ref
from sim.checks.c06 import close_call
from sim.util import Skip, Violation, rng_for

TOL = 1e-6
BUDGET = 60
WAITING = 20
NONE, LIVE, INTERACTIVE, IMAGE, VIDEO = range(5)

def generate(rng, tier):
    'a case'

    case = gen.mixed_case(rng, max_steps=7, max_modes=3, multi_init=0.25)

    if rng.random() < 0.4: # more splitting
        case['strat'].update(kind=rng.choice(['sim', 'stock']), group=rng.choice(['path', 'mode']), deagg=True,
                             agg=rng.choice(['box', 'arnoldi', 'chull', 'mix']))
        case['set']['approx'] = 0

        if rng.random() < 0.3:
            case = gen.chain_case(rng)

    plot = gen.random_plot(rng, case, store=rng.random() < 0.75)

    if rng.random() < 0.6:
        plot['stride'] = 1

    case['plot'] = plot
    case['events'] = gen.random_events(rng, 40)

    if plot['mode'] == INTERACTIVE and rng.random() < 0.6:
        case['events'] = [[rng.choice(['step', 'step', 'next', 'nothing', 'nothing', 'click', 'resize']), 0]
                          for _ in range(rng.randint(5, 40))]

        for e in case['events']:
            if e[0] == 'click':
                e[1] = [rng.randrange(3), round(rng.random(), 2), round(rng.random(), 2)]

    case['faults'] = [f for f in faults.benign(rng, 0.5) if f['t'] in ('gc', 'clock')]
    case['real'] = plot['mode'] in (LIVE, INTERACTIVE) and rng.random() < 0.15
    case['points'] = rng.randrange(10**6)

    return case

def baseline(case):
    'the analysis without plotting, in another process'

    from sim import trace, world
    from sim.executor import in_fork
    from sim.seams import SIM, running

    plain = dict(case)
    plain['plot'] = None

    def func():
        'there'

        SIM.reset()

        with running():
            w = world.World(plain)
            tr = trace.Trace()
            end = w.run(tr.each, budget=BUDGET, max_waiting=WAITING)

        return tr.result(end, w.core)

    kind, val = in_fork(func)

    if kind != 'ok':
        raise Violation('exception-baseline', f'the analysis without plotting failed: {kind} {val}')

    return val

class Recording:
    'what should be recorded'

    def __init__(self, case, w):
        self.case, self.w = case, w
        self.sets = {}       # (id(state), step) -> [state, snapshot, time interval]
        self.pending = None  # key of the set which will be recorded before the next step
        self.seen = {}       # id(entry) -> entry, in the first subplot
        self.parent = None
        self.exact = case['plot']['stride'] == 1 and (case['plot']['store'] or case['plot']['mode'] == INTERACTIVE)
        self.stats = {'recorded': 0, 'outlines': 0, 'replayed': 0, 'superseded': 0, 'drawn': 0, 'clicked': 0}

    def data(self, core):
        'recorded entries of each subplot'

        pd = core.result.plot_data

        if pd is None:
            raise Violation('no-plot-data', 'no plot data are stored')

        return [[o for objs in modes.values() for o in objs] for modes in pd.mode_to_obj_list]

    def count(self, core, state, step):
        'how often is a set recorded in each subplot?'
        return [sum(1 for o in objs if o[1] is state and o[2] == step) for objs in self.data(core)]

    def snapshot(self, state):
        'note the set as it is now'

        h = self.case['h']
        iv = [float(v) * h for v in state.cur_steps_since_start]
        key = (id(state), int(state.cur_step_in_mode))
        self.sets[key] = [state, ref.RawLP.copy_of(state.lpi), state.lpi.cur_vars_offset, iv, int(state.lpi.dims)]

        return key

    def settle(self, core):
        'after a frame: was the current set recorded?'

        if self.pending is None:
            return

        state, step = self.sets[self.pending][0], self.pending[1]
        num = self.count(core, state, step)

        if num != [1] * len(num):
            raise Violation('recorded', f"the set in mode '{state.mode.name}' at step {step} is recorded {num} times in the subplots")

        self.stats['recorded'] += 1
        self.pending = None

    def each(self, core, when):
        'hook'

        if not self.exact:
            return

        man = core.aggdag.deagg_man

        if when == 'pre':
            self.settle(core)
            self.seen = {id(o): o for o in self.data(core)[0]}
            self.parent = man.deagg_parent

            if self.parent is None and man.waiting_nodes:
                self.parent = man.waiting_nodes[0][0]

            return

        s = core.aggdag.get_cur_state()

        if s is not None:
            self.pending = self.snapshot(s)

        # recorded within the step: only when splitting is replayed
        for o in self.data(core)[0]:
            if id(o) in self.seen:
                continue

            _, state, step, _ = o

            if step != state.cur_step_in_mode:
                raise Violation('recorded', f"a set in mode '{state.mode.name}' is recorded for step {step}, but is at step "
                                f'{state.cur_step_in_mode}')

            self.snapshot(state)
            self.stats['replayed'] += 1
            parent = self.parent

            if parent is None and man.deagg_parent is not None:
                parent = man.deagg_parent

            if parent is not None and parent.stateset is not state and any(self.count(core, parent.stateset, step)):
                raise Violation('superseded', f"step {step} of a set in mode '{state.mode.name}' was replayed after a split, but "
                                'the set from before the split is still recorded there')

    def graph(self, core):
        'sets which are still part of the analysis'

        rv, todo = [], list(core.aggdag.roots)

        while todo:
            n = todo.pop()

            if any(n.stateset is s for s in rv):
                continue

            rv.append(n.stateset)
            todo += [op.child_node for op in n.op_list if getattr(op, 'child_node', None) is not None]

        return rv

    def finish(self, core):
        'checks at the end'

        if not self.exact:
            return

        self.settle(core)
        live = self.graph(core)
        data = self.data(core)

        for (_, step), (state, _, _, _, _) in self.sets.items():
            num = self.count(core, state, step)

            if any(state is s for s in live):
                if num != [1] * len(num):
                    raise Violation('recorded', f"in the end, the set in mode '{state.mode.name}' at step {step} is recorded {num} "
                                    'times in the subplots')
            else:
                self.stats['superseded'] += 1

                if num not in ([0] * len(num), [1] * len(num)):
                    raise Violation('superseded', f"the set in mode '{state.mode.name}' at step {step}, which was split, is recorded "
                                    f'{num} times in the subplots')

        rng = rng_for('c09', self.case['points'])

        for subplot, objs in enumerate(data):
            for verts, state, step, desc in objs:
                if (id(state), step) not in self.sets:
                    raise Violation('recorded', f"a set in mode '{state.mode.name}' at step {step} is recorded, but was never "
                                    'explored')

                if state.mode.name not in desc or str(step) not in desc:
                    raise Violation('described', f"the set in mode '{state.mode.name}' at step {step} is described as '{desc}'")

                self.outline(verts, state, step, subplot, rng)

        for subplot, modes in enumerate(core.result.plot_data.mode_to_obj_list):
            for name, objs in modes.items():
                for o in objs:
                    if o[1].mode.name != name:
                        raise Violation('recorded', f"a set in mode '{o[1].mode.name}' is recorded under '{name}'")

        if self.case['plot']['mode'] != NONE:
            self.drawn(core, data)
            self.own_drawings(core)

    def direction(self, spec, mode, dims):
        'plotted direction (None: time)'

        if isinstance(spec, dict):
            spec = spec[mode]

        if spec is None:
            return None

        if isinstance(spec, list):
            return np.array(spec, dtype=float)

        return np.array([1.0 if i == spec else 0.0 for i in range(dims)])

    def outline(self, verts, state, step, subplot, rng):
        'is an outline on the set, and does it span its extent?'

        _, raw, off, iv, dims = self.sets[(id(state), step)]
        where = f"outline of mode '{state.mode.name}' at step {step} in subplot {subplot}"
        x, y = [self.direction(d, state.mode.name, dims) for d in self.case['plot']['dims'][subplot]]
        v = np.array([[float(a), float(b)] for a, b in verts])
        self.stats['outlines'] += 1

        if len(v) < 2 or np.abs(v[0] - v[-1]).max() > 0:
            raise Violation('outline', f'{where} is not closed')

        limits = []

        for i, d in enumerate((x, y)):
            if d is None:
                lo, hi = iv
                slack = 1e-9 * (1 + hi)
            else:
                st1, hi, _ = raw.maximize(list(d), off)
                st2, lo, _ = raw.maximize(list(-d), off)

                if st1 != 'opt' or st2 != 'opt':
                    return

                lo = -lo
                slack = 3e-5 * (1 + max(abs(lo), abs(hi)))

            limits.append((lo, hi, slack))

        width = [hi - lo for lo, hi, _ in limits]

        for i, (lo, hi, slack) in enumerate(limits):
            if x is not None and y is not None:
                slack += 2e-3 * max(width) # the plot's accuracy at a sharp corner

            seen = v[:, i].min(), v[:, i].max()

            if abs(seen[0] - lo) > slack or abs(seen[1] - hi) > slack:
                raise Violation('outline', f"{where} goes from {seen[0]} to {seen[1]} in {'xy'[i]}, the set from {lo} to {hi}")

        if x is None or y is None:
            # a rectangle
            if min(width) > 1e-4 and len(v) != 5:
                raise Violation('outline', f'{where} has {len(v) - 1} corners')

            return

        # the set exceeds no edge by more than the plot's accuracy
        eps = 1.05e-3 * max(min(width), 1e-5) + 3e-5 * (1 + np.abs(v).max())
        sides = [rng.randrange(len(v) - 1) for _ in range(3)] if len(v) > 3 else []
        turn = 1.0 if float(np.sum(v[:-1, 0] * v[1:, 1] - v[1:, 0] * v[:-1, 1])) > 0 else -1.0

        for i in sides:
            d = turn * np.array([v[i + 1, 1] - v[i, 1], v[i, 0] - v[i + 1, 0]])
            n = np.linalg.norm(d)

            if n < 1e-6:
                continue

            d = d / n
            st, val, _ = raw.maximize(list(d[0] * x + d[1] * y), off)

            if st == 'opt' and not val - eps <= v[i].dot(d) <= val + eps:
                raise Violation('outline', f'{where} reaches {v[i].dot(d)} in direction {d.tolist()}, the set {val}')

        # in some other direction
        eps += 1e-3 * max(width)
        d = np.array([rng.choice([-1.0, -0.5, 0.3, 0.7, 1.0]) for _ in range(2)])
        d = d / np.linalg.norm(d)
        st, val, _ = raw.maximize(list(d[0] * x + d[1] * y), off)

        if st == 'opt' and not val - eps <= v.dot(d).max() <= val + eps:
            raise Violation('outline', f'{where} reaches {v.dot(d).max()} in direction {d.tolist()}, the set {val}')

        if rng.random() < 0.3:
            p = v[rng.randrange(len(v))]
            away = self.distance(raw, off, x, y, p)

            if away > 3e-5 * (1 + np.abs(p).max()):
                raise Violation('outline', f'{where}: corner {p.tolist()} is {away} away from the set')

    @staticmethod
    def distance(raw, off, x, y, p):
        'how far is a point of the plane from the set?'

        G, g, E, e = raw.matrices()
        n = raw.n
        G = np.hstack([G, np.zeros((len(g), 1))])
        E = np.hstack([E, np.zeros((len(e), 1))])

        for d, val in zip((x, y), p):
            for sign in (1.0, -1.0):
                row = np.zeros((1, n + 1))
                row[0, off:off + len(d)] = sign * d
                row[0, n] = -1.0
                G, g = np.vstack([G, row]), np.append(g, sign * val)

        c = np.zeros(n + 1)
        c[n] = 1.0
        st, val, _ = ref.highs(G, g, E, e, c)

        return -val if st == 'opt' else 0.0

    def drawn(self, core, data):
        'every recorded set is on the drawing'

        for subplot, objs in enumerate(data):
            axes = core.plotman.axes_list[subplot]
            polys = [p.vertices for c in axes.collections for p in c.get_paths()]
            marks = [(float(a), float(b)) for line in axes.lines for a, b in zip(line.get_xdata(), line.get_ydata())]
            by_len = {}
            self.in_view(axes, objs, subplot)

            for p in polys:
                by_len.setdefault(len(p), []).append(p)

            for verts, state, step, _ in objs:
                v = np.array(verts, dtype=float)
                ok = any(np.array_equal(p, v) for p in by_len.get(len(v), []))

                if not ok and self.case['plot']['markers'] and len(v) <= 2:
                    ok = any(a == v[0][0] and b == v[0][1] for a, b in marks)

                if not ok:
                    raise Violation('not-drawn', f"the set in mode '{state.mode.name}' at step {step} is not drawn in subplot {subplot}")

                self.stats['drawn'] += 1

    def own_drawings(self, core):
        'drawings of the user are on the plot they belong to'

        marks = self.case['plot'].get('marks') or []

        for axes, lines in zip(core.plotman.axes_list, marks):
            shown = [axes.transData.inverted().transform(c.get_transform().transform(p.vertices))
                     for c in axes.collections for p in c.get_paths() if c.get_visible()]

            for line in lines:
                if not any(v.shape == (2, 2) and np.allclose(v, line, atol=1e-6) for v in shown):
                    raise Violation('own-drawing', f"the line {line} of the user is not drawn in its place")

    def in_view(self, axes, objs, subplot):
        'the axes show every recorded set, unless their limits are fixed'

        if self.case['plot'].get('limits'):
            return

        lims = [sorted(axes.get_xlim()), sorted(axes.get_ylim())]

        for verts, state, step, _ in objs:
            v = np.array(verts, dtype=float)

            for i, (lo, hi) in enumerate(lims):
                slack = 1e-9 * (1 + np.abs(v[:, i]).max())

                if v[:, i].min() < lo - slack or v[:, i].max() > hi + slack:
                    raise Violation('out-of-view', f"the set in mode '{state.mode.name}' at step {step} goes from {v[:, i].min()} "
                                    f"to {v[:, i].max()} in {'xy'[i]}, but the axes of subplot {subplot} only show {lo} to {hi}")

    def click(self, core, ax, x, y, text):
        'a click into the drawing'

        if self.case['plot']['mode'] != INTERACTIVE or ax not in core.plotman.axes_list or core.result.plot_data is None:
            return

        subplot = core.plotman.axes_list.index(ax)
        inside, unsure = [], False

        for verts, _, _, desc in self.data(core)[subplot]:
            if len(verts) < 4:
                continue

            v = np.array(verts, dtype=float)
            area = 0.5 * float(np.sum(v[:-1, 0] * v[1:, 1] - v[1:, 0] * v[:-1, 1]))
            scale = 1e-6 * (1 + np.abs(v).max())
            s = 1.0 if area > 0 else -1.0
            gap = np.inf

            for a, b in zip(v[:-1], v[1:]):
                n = np.linalg.norm(b - a)

                if n > 1e-12:
                    gap = min(gap, s * ((b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0])) / n)

            if gap > scale:
                inside.append(desc)
            elif gap > -scale:
                unsure = True

        self.stats['clicked'] += 1

        if inside and not unsure and not any(d in text for d in inside):
            raise Violation('click', f"a click inside of '{inside[0]}' gives '{text.strip()}'")

        if not inside and not unsure and text.strip():
            raise Violation('click', f"a click outside of all sets gives '{text.strip()}'")

class Buttons:
    'what the buttons of the interactive mode do'

    def __init__(self, plot):
        self.plot = plot
        self.made = 0
        self.held = False      # certainly paused
        self.stepping = True   # the first frame is a single step
        self.frames = 0

    def frame(self, core, pressed):
        'after a frame'

        steps = core.made - self.made
        self.made = core.made
        self.frames += 1
        finished = core.is_finished()

        if self.plot['mode'] != INTERACTIVE:
            if self.plot['mode'] == LIVE and steps < 1 and not finished:
                raise Violation('frame', f'frame {self.frames} made no step')
            if steps > self.plot['stride']:
                raise Violation('frame', f"frame {self.frames} made {steps} steps, the stride is {self.plot['stride']}")
            return

        if 'step' in pressed:
            self.stepping, self.held = True, False
        elif 'next' in pressed:
            self.held = False

        if steps > self.plot['stride']:
            raise Violation('frame', f"frame {self.frames} made {steps} steps, the stride is {self.plot['stride']}")

        if self.held and self.plot['skip'] == 0 and steps:
            raise Violation('frame', f'frame {self.frames} made {steps} steps while paused')

        if pressed and not steps and not finished:
            raise Violation('frame', f'frame {self.frames} made no step after {pressed} was pressed')

        if self.stepping and steps > 1:
            raise Violation('frame', f'frame {self.frames} made {steps} steps after Step was pressed')

        if self.stepping and steps:
            # paused again
            self.stepping, self.held = False, True

def run(case):
    'run a case'

    from sim import trace, ui, world
    from sim.seams import SIM, running

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    base = baseline(case)

    if base['end'] == 'nothing':
        raise Skip('no feasible initial states')

    SIM.reset()
    faults.arm(case['faults'])
    SIM.ui = display = ui.Display(case['events'], real_anim=case['real'], max_frames=3000)
    SIM.text = []
    plot = case['plot']

    with running():
        w = world.World(case)
        rec = Recording(case, w)
        tr = trace.Trace()
        buttons = Buttons(plot)

        def each(core, when):
            'hook'

            tr.each(core, when)
            rec.each(core, when)

        display.on_frame = lambda anim, pressed: buttons.frame(w.core, pressed)
        display.on_click = lambda ax, x, y, text: rec.click(w.core, ax, x, y, text)
        end = w.run(each, budget=BUDGET, max_waiting=WAITING)

        if end == 'done':
            rec.finish(w.core)

    got = tr.result(end, w.core)
    diff = trace.difference(base, got, TOL, ce=False)

    if diff:
        plain = dict(case)
        plain['plot'] = None

        if close_call(plain, base):
            raise Skip('close call')
        raise Violation('changed', f"with plot mode {plot['mode']} the analysis differs (without plotting first): {diff}")

    if end == 'done' and plot['mode'] != NONE:
        written = len(display.images)

        if plot['mode'] in (IMAGE, VIDEO) and written != 1:
            raise Violation('not-written', f'{written} files were written')

    for k, v in display.pressed.items():
        SIM.fired[k] = SIM.fired.get(k, 0) + v

    if case['set']['stdout'] >= 0 and end == 'done':
        rec.stats['frames'] = display.frames

    return {'h': case['h'], 'sim_steps': len(got['steps']), 'lp_calls': SIM.lp_calls, 'truncated': end == 'cut',
            'sched': w.sched.trace + [f'mode{plot["mode"]}'] + [e[0] for e in case['events']], 'stats': rec.stats,
            'nontrivial': len(got['steps']) > 4}
