'''C14: failing output is reported, and what is written is faithful'''

import io
import os
import re
import shutil
import tempfile

import numpy as np

from sim import faults, gen, ref
from sim.checks.c06 import close_call
from sim.checks.c09 import BUDGET, INTERACTIVE, IMAGE, LIVE, TOL, VIDEO, WAITING, Recording, baseline
from sim.monitor import told
from sim.util import Skip, Violation

EXC = ('OSError', 'OSError', 'BrokenPipeError', 'MemoryError', 'KeyboardInterrupt')

def quota(rng, top):
    'bytes until the disk is full'
    return int(top ** rng.random()) - 1

def generate(rng, tier):
    'a case'

    out = rng.choice(['image', 'video', 'video', 'lp', 'lp', 'graph', 'graph', 'closed'])
    case = gen.mixed_case(rng, max_steps=6, max_modes=3, multi_init=0.25)

    case['set']['ce'] = rng.random() < 0.85

    if rng.random() < 0.4: # more splitting
        case['strat'].update(kind=rng.choice(['sim', 'stock']), group=rng.choice(['path', 'mode']), deagg=True,
                             agg=rng.choice(['box', 'arnoldi', 'chull', 'mix']))
        case['set']['approx'] = 0

        if rng.random() < 0.3:
            case = gen.chain_case(rng)

    plot = gen.random_plot(rng, case, mode={'image': IMAGE, 'video': VIDEO}.get(out, LIVE), store=rng.random() < 0.7)
    plot['writer'] = False # the default
    plot['stride'] = 1 if rng.random() < 0.6 else plot['stride']
    case['out'] = out
    case['events'] = []
    case['fault'] = None
    case['faults'] = [f for f in faults.benign(rng, 0.4) if f['t'] in ('gc', 'clock')]
    case['real'] = False
    case['points'] = rng.randrange(10**6)
    faulty = rng.random() < 0.6

    if out == 'image':
        plot['filename'] = rng.choice([None, 'out.png', 'sub/out.png', 'out.pdf', 'out.svg'])
        case['real'] = rng.random() < 0.5

        if faulty:
            case['fault'] = rng.choice([{'t': 'directory'}, {'t': 'quota', 'size': quota(rng, 40000)},
                                        {'t': 'at', 'at': 'image', 'exc': rng.choice(EXC)}])
            case['real'] = case['real'] or case['fault']['t'] != 'at'
    elif out == 'video':
        plot['filename'] = rng.choice([None, 'out.mp4', 'sub/out.mp4'])
        case['real'] = rng.random() < 0.12

        if faulty:
            exc = rng.choice(EXC)
            case['fault'] = rng.choice([{'t': 'directory'}, {'t': 'quota', 'size': quota(rng, 400)}, {'t': 'program'},
                                        {'t': 'at', 'at': rng.choice(['open', 'close']), 'exc': exc},
                                        {'t': 'at', 'at': ['grab', rng.randrange(12)], 'exc': exc},
                                        {'t': 'at', 'at': rng.randrange(12), 'exc': exc},
                                        {'t': 'ended', 'at': rng.randrange(15)}])

            if case['fault']['t'] == 'ended' or case['fault'].get('at') in range(100):
                case['real'] = False
    elif out == 'closed':
        plot['mode'] = rng.choice([LIVE, INTERACTIVE])
        case['real'] = rng.random() < 0.12
        case['events'] = gen.random_events(rng, 10)
        case['fault'] = {'t': 'ended', 'at': int(30 ** rng.random()) - 1}
    else:
        case['plot'] = plot

        if out == 'graph' and rng.random() < 0.4:
            plot['mode'] = INTERACTIVE
            plot['stride'] = 1
            case['events'] = [[rng.choice(['step', 'next', 'save', 'save', 'nothing']), 0] for _ in range(rng.randint(4, 25))]
            case['press'] = [rng.choice([None, None, None, 'program', 'exit']) for _ in range(8)]
        else:
            plot = None

        case['writes'] = []

        for _ in range(rng.randint(1, 6)):
            w = {'at': int(25 ** rng.random()) - 1, 'kind': rng.choice(['glpk', 'cplex'] if out == 'lp' else ['viz', 'save', 'save']),
                 'which': rng.randrange(8), 'fault': None}

            if faulty and rng.random() < 0.6:
                w['fault'] = rng.choice([{'t': 'directory'}, {'t': 'quota', 'size': quota(rng, 3000)},
                                         {'t': 'quota', 'size': quota(rng, 30000)}, {'t': 'program'}, {'t': 'exit'}])

                if out == 'lp' and w['fault']['t'] in ('program', 'exit'):
                    w['fault'] = {'t': 'quota', 'size': quota(rng, 3000)}
                elif out == 'graph' and w['fault']['t'] == 'directory':
                    w['fault'] = {'t': 'exit'}

            case['writes'].append(w)

    case['plot'] = plot

    return case

class Programs:
    'stands for the module subprocess in the graph library: the program which draws graphs'

    def __init__(self, orig):
        self.orig = orig
        self.fault = None
        self.runs = 0

    def __getattr__(self, name):
        return getattr(self.orig, name)

    def run(self, cmd, cwd=None, **_):
        'run the program'

        from sim.seams import SIM

        self.runs += 1

        if self.fault == 'program':
            SIM.fire('program_missing')
            raise FileNotFoundError(2, 'simulated: no such program', cmd[0])

        code = 0

        if self.fault == 'exit':
            SIM.fire('program_fails')
            code = 1
        else:
            name = os.path.join(cwd or '.', cmd[-1])

            try:
                with open(name, encoding='utf-8') as f:
                    text = f.read()
                fmt = [c[2:] for c in cmd if str(c).startswith('-T')]
                with open(name + '.' + fmt[0], 'w', encoding='utf-8') as f:
                    f.write(text)
                    f.flush()
            except OSError:
                code = 1

        return self.orig.CompletedProcess(cmd, code, b'', b'')

class Writes:
    'writes things in the middle of an analysis and reads them back'

    def __init__(self, case, programs):
        self.case, self.programs = case, programs
        self.made = -1
        self.count = 0
        self.stats = {'lp': 0, 'graphs': 0, 'failed': 0, 'nodes': 0, 'edges': 0}
        self.files = {}   # graphs written before
        self.popped = []

    def each(self, core, when):
        'hook'

        if when != 'post':
            return

        self.made += 1
        node = core.aggdag.cur_node

        if node is not None and not any(node is n for n in self.popped):
            self.popped.append(node)

        for w in self.case['writes']:
            if w['at'] == self.made:
                if self.case['out'] == 'lp':
                    self.write_lp(core, w)
                else:
                    self.write_graph(core, w)

    def attempt(self, func, fault, what):
        'call func; returns True if it went well'

        from sim import ui

        size = fault['size'] if fault and fault['t'] == 'quota' else None

        try:
            with ui.quota(size):
                self.result = func()
        except Exception as e: # pylint: disable=broad-except
            if not fault:
                raise Violation('write-failed', f'{what} failed: {type(e).__name__}: {e}') from e

            if isinstance(e, (TypeError, AttributeError, NameError, AssertionError)):
                raise Violation('write-failed', f'{what} failed with {type(e).__name__}: {e}') from e

            self.stats['failed'] += 1
            return False

        return True

    # linear programs

    def write_lp(self, core, w):
        'write a problem of the analysis'

        states = []

        if core.aggdag.get_cur_state() is not None:
            states.append(core.aggdag.get_cur_state())

        states += [op.poststate for op in core.aggdag.waiting_list]

        if not states:
            return

        lpi = states[w['which'] % len(states)].lpi
        fault = w['fault']
        self.count += 1
        name = f'{"missing/" if fault and fault["t"] == "directory" else ""}prob{self.count}'

        if w['which'] % 3 == 0:
            lpi.set_minimize_direction([(w['which'] + i) % 4 - 1.0 for i in range(lpi.dims)])

        if w['which'] % 4 == 1 and '/' not in name:
            with open(name, 'w', encoding='ascii') as f:
                f.write('old\n' * 400) # something is there already

        func = lpi.write_lp_glpk if w['kind'] == 'glpk' else lpi.write_lp_cplex
        what = f'writing a problem with {lpi.get_num_cols()} columns ({w["kind"]})'
        before = problem(lpi.lp)
        ok = self.attempt(lambda: func(name), fault, what)
        same(before, problem(lpi.lp), f'{what} changed the problem', 0.0)

        if not ok:
            return

        if fault and fault['t'] == 'directory':
            raise Violation('not-reported', f'{what} into a missing directory was not reported')

        self.stats['lp'] += 1
        same(before, read_problem(name, w['kind'], what), f'{what}: what is read back differs', 1e-13)

    # graphs

    def write_graph(self, core, w):
        'draw the graph of the analysis'

        from sim.seams import SIM

        dag = core.aggdag
        fault = w['fault']
        self.programs.fault = fault['t'] if fault else None
        self.count += 1
        names = [f'graph{self.count}']
        before = len(SIM.text)

        if w['kind'] == 'viz':
            ok = self.attempt(lambda: dag.viz(filename=names[0], lr=w['which'] % 2 == 0), fault, 'drawing the graph')
        else:
            ok = self.attempt(dag.save_viz, fault, 'saving the graph')
            names = [self.result] if ok else []

        self.programs.fault = None

        if not ok:
            if 'saved' in ''.join(SIM.text[before:]).lower():
                raise Violation('not-reported', 'a graph which could not be written is reported as saved')
            return

        if fault and fault['t'] in ('program', 'exit'):
            raise Violation('not-reported', f'the graph could not be drawn ({fault["t"]}), which was not reported')

        self.check_graph(core, names[0])

    def check_graph(self, core, name):
        'is the graph which was written right?'

        name = name + '.png'

        if not os.path.exists(name):
            raise Violation('not-written', f'no graph was written to {name}')

        if name in self.files:
            raise Violation('overwritten', f'a graph was written to {name} again')

        with open(name, encoding='utf-8') as f:
            text = f.read()

        for other, old in self.files.items():
            with open(other, encoding='utf-8') as f:
                if f.read() != old:
                    raise Violation('overwritten', f'{other} changed when {name} was written')

        self.files[name] = text
        self.stats['graphs'] += 1

        if not text.rstrip().endswith('}'):
            raise Violation('not-reported', f'{name} is cut off, which was not reported')

        nodes = {a: b for a, b in re.findall(r'^\s*(\w+) \[label="?(.*?)"?(?: style=\w+)?\]$', text, re.M)}
        edges = {}

        for a, b, label in re.findall(r'^\s*(\w+) -> (\w+)(?: \[label="?(.*?)"?\])?$', text, re.M):
            edges.setdefault((a, b), []).append(label)

        todo, live = list(core.aggdag.roots), []

        while todo:
            n = todo.pop()

            if any(n is x for x in live):
                continue

            live.append(n)
            todo += [op.child_node for op in n.op_list if getattr(op, 'child_node', None) is not None]

        drawn = {n for n in nodes if n.startswith('node_')}

        for n in live:
            key = f'node_{id(n)}'
            self.stats['nodes'] += 1

            if key not in drawn:
                raise Violation('graph', f"the graph has no node for a set in mode '{n.stateset.mode.name}'")

            label = nodes[key]
            left = bool(n.op_list) and type(n.op_list[-1]).__name__ == 'OpLeftInvariant'
            steps = n.op_list[-1].step if left else n.stateset.cur_step_in_mode

            if not re.fullmatch(re.escape(n.stateset.mode.name) + rf'\b.*\b{steps}\b.*', label):
                raise Violation('graph', f"the node of a set in mode '{n.stateset.mode.name}' with {steps} steps is labelled '{label}'")

            self.check_edges(n, key, left, nodes, edges)

        if len(drawn) != len(live):
            raise Violation('graph', f'the graph has {len(drawn)} nodes for {len(live)} sets')

        # every set which was not replaced after a split
        for n in self.popped:
            gone = all(op.child_node is not n for op in n.parent_ops) or \
                   not any(n is r for r in core.aggdag.roots) and \
                   not any(op.parent_node is not None and any(op.parent_node is x for x in live) for op in n.parent_ops)

            if not gone and f'node_{id(n)}' not in drawn:
                raise Violation('graph', f"the graph has no node for the explored set in mode '{n.stateset.mode.name}'")

        for i in range(len(core.aggdag.roots)):
            if not any(a.startswith('preroot') and b == f'node_{id(core.aggdag.roots[i])}' for a, b in edges):
                raise Violation('graph', 'the graph does not mark an initial set')

    def check_edges(self, n, key, left, nodes, edges):
        'are the transitions of a set drawn?'

        if not left:
            return

        for op in n.op_list:
            if type(op).__name__ != 'OpTransition':
                continue

            if op.child_node is not None:
                labels = edges.get((key, f'node_{id(op.child_node)}'), [])
            else:
                labels = [lab for (a, b), labs in edges.items() for lab in labs
                          if a == key and not b.startswith('node_') and nodes.get(b) == op.transition.to_mode.name]

            if not any(covers(lab, op.step) for lab in labels):
                raise Violation('graph', f"a transition from mode '{n.stateset.mode.name}' to '{op.transition.to_mode.name}' at step "
                                f'{op.step} is not drawn (drawn: {labels})')

            self.stats['edges'] += 1

def covers(label, step):
    'does the label of an edge cover a step?'

    nums = [int(x) for x in re.findall(r'-?\d+', label or '')]
    return bool(nums) and min(nums) <= step <= max(nums)

def problem(lp):
    'everything in a GLPK problem'

    import swiglpk as glpk

    rows, cols = glpk.glp_get_num_rows(lp), glpk.glp_get_num_cols(lp)
    ind, val = glpk.intArray(cols + 1), glpk.doubleArray(cols + 1)
    names = []

    for c in range(1, cols + 1):
        name = glpk.glp_get_col_name(lp, c)
        names.append(int(name[2:]) - 1 if name else c - 1)

    mat = []

    for r in range(1, rows + 1):
        row = {}

        for i in range(1, glpk.glp_get_mat_row(lp, r, ind, val) + 1):
            if val[i] != 0:
                row[names[ind[i] - 1]] = val[i]

        t = glpk.glp_get_row_type(lp, r)
        lo = glpk.glp_get_row_lb(lp, r) if t in (glpk.GLP_LO, glpk.GLP_DB, glpk.GLP_FX) else None
        hi = glpk.glp_get_row_ub(lp, r) if t in (glpk.GLP_UP, glpk.GLP_DB, glpk.GLP_FX) else None
        mat.append((row, lo, hi))

    bounds = {names[c - 1]: glpk.glp_get_col_type(lp, c) for c in range(1, cols + 1)}
    obj = {names[c - 1]: glpk.glp_get_obj_coef(lp, c) for c in range(1, cols + 1) if glpk.glp_get_obj_coef(lp, c) != 0}

    return {'rows': mat, 'cols': bounds, 'obj': obj, 'min': glpk.glp_get_obj_dir(lp) == glpk.GLP_MIN}

def read_problem(name, kind, what):
    'read a written problem'

    import swiglpk as glpk

    lp = glpk.glp_create_prob()

    try:
        code = glpk.glp_read_prob(lp, 0, name) if kind == 'glpk' else glpk.glp_read_lp(lp, None, name)

        if code:
            raise Violation('not-reported', f'{what} reported no failure, but the file cannot be read')

        return problem(lp)
    finally:
        glpk.glp_delete_prob(lp)

def same(a, b, what, tol):
    'compare two problems'

    def differ(x, y):
        'numbers'

        if x is None or y is None:
            return x is not y
        return abs(x - y) > tol * max(abs(x), abs(y))

    if len(a['rows']) != len(b['rows']):
        raise Violation('lp', f"{what}: {len(a['rows'])} and {len(b['rows'])} rows")

    if a['cols'] != b['cols'] or a['min'] != b['min']:
        raise Violation('lp', f'{what}: columns')

    pairs = [(x, y) for x, y in zip(a['rows'], b['rows'])] + [((a['obj'], None, None), (b['obj'], None, None))]

    for (r1, lo1, hi1), (r2, lo2, hi2) in pairs:
        if set(r1) != set(r2) or any(differ(r1[c], r2[c]) for c in r1) or differ(lo1, lo2) or differ(hi1, hi2):
            raise Violation('lp', f'{what}: {r1} {lo1} {hi1} and {r2} {lo2} {hi2}')

class Film:
    'looks at every recorded frame of a video'

    def __init__(self, case, w, rec):
        self.case, self.w, self.rec = case, w, rec
        self.frames = []   # steps made, is finished

    def grab(self):
        'a frame is recorded'

        core = self.w.core
        self.frames.append((core.made, bool(core.is_finished())))

        if self.rec.exact:
            self.rec.settle(core)

            if len(self.frames) % 4 == 1 or core.is_finished() and not self.frames[-2:-1] == [True]:
                self.rec.drawn(core, self.rec.data(core))

    def finish(self, steps):
        'at the end'

        plot = self.case['plot']
        last = 0

        for made, _ in self.frames:
            if made - last > plot['stride']:
                raise Violation('video', f'a frame shows the state after step {made}, the one before it after step {last}')
            last = made

        if not self.frames or not self.frames[-1][1]:
            raise Violation('video', 'the last frame of the video is not the end of the analysis')

        if last < steps:
            raise Violation('video', f'the video ends after step {last} of {steps}')

        extra = sum(1 for f in self.frames if f[1])

        if extra < plot['extra'] and not (self.case['fault'] and self.case['fault']['t'] == 'ended'):
            raise Violation('video', f"{extra} frames at the end, not {plot['extra']}")

def run(case):
    'run a case'

    from sim import world
    from sim.seams import SIM

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    base = baseline(case)

    if base['end'] == 'nothing':
        raise Skip('no feasible initial states')

    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='c14_')

    try:
        os.chdir(scratch)
        os.mkdir('sub')
        return run_in(case, base)
    finally:
        SIM.active = False
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)

def run_in(case, base):
    'run in a scratch directory'

    from graphviz.backend import execute
    from sim import trace, ui, world
    from sim.seams import SIM, running

    SIM.reset()
    faults.arm(case['faults'])
    SIM.text = []
    fault, plot, out = case['fault'], case['plot'], case['out']
    display = ui.Display(case['events'], real_anim=case['real'] and out != 'image', max_frames=3000,
                         real_save=case['real'] and out == 'image')
    SIM.ui = display

    if fault:
        if fault['t'] == 'directory':
            case['plot']['filename'] = 'missing/out.png'
            SIM.fire('missing_directory')
        elif fault['t'] == 'quota':
            display.quota = fault['size']
        elif fault['t'] == 'program':
            display.no_program = True
        elif fault['t'] == 'ended':
            display.close_at = fault['at']
        else:
            display.fail = fault

    orig = execute.subprocess
    execute.subprocess = programs = Programs(orig)
    writes = Writes(case, programs) if 'writes' in case else None
    error = None
    pressed = []

    try:
        with running():
            w = world.World(case)
            tr = trace.Trace()
            rec = film = None

            if plot is not None:
                rec = Recording(case, w)
                film = Film(case, w, rec)

            if out == 'video':
                display.on_grab = film.grab

            def each(core, when):
                'hook'

                tr.each(core, when)

                if rec and out in ('image', 'video'):
                    rec.each(core, when)
                if writes:
                    writes.each(core, when)

            def saved(fault, error, new, text):
                'the button for graphs was pressed'

                if error is not None:
                    if not fault:
                        raise Violation('write-failed', f'saving the graph failed: {type(error).__name__}: {error}')
                    if 'saved' in text.lower():
                        raise Violation('not-reported', 'a graph which could not be written is reported as saved')
                    return

                if fault:
                    raise Violation('not-reported', f'the graph could not be drawn ({fault}), which was not reported')
                if len(new) != 1:
                    raise Violation('not-written', f'pressing the button for graphs writes {new}')

                pressed.append(new[0])
                writes.check_graph(w.core, new[0][:-4])

            if out == 'graph' and plot is not None:
                wrap_button(display, programs, list(case.get('press', [])), saved)

            end = 'failed'

            try:
                end = w.run(each, budget=BUDGET, max_waiting=WAITING)
            except (Violation, Skip):
                raise
            except BaseException as e: # pylint: disable=broad-except
                error = e
            finally:
                display.on_grab = display.on_save = None

            if end == 'done' and rec and out in ('image', 'video'):
                rec.finish(w.core)
    finally:
        execute.subprocess = orig

    judge(case, w, end, error, base, display, film)
    diff = None

    if error is None:
        got = tr.result(end, w.core)
        diff = trace.difference(base, got, TOL, ce=False)
    else:
        got = again(case, w)
        diff = trace.difference(base, got, TOL, ce=False)

        if diff:
            diff = f'run again after {type(error).__name__}: {diff}'

    if diff:
        plain = dict(case)
        plain['plot'] = None

        if close_call(plain, base):
            raise Skip('close call')
        raise Violation('changed', f'with output ({out}) the analysis differs (without first): {diff}')

    stats = dict(writes.stats) if writes else {}
    stats['failed_' + out] = 1 if error is not None else 0
    stats['frames'] = len(film.frames) if film else 0
    stats['pressed'] = len(pressed)
    fired = [str(case['fault'])] + [str(x) for x in case.get('writes', [])]

    return {'h': case['h'], 'sim_steps': len(got['steps']), 'lp_calls': SIM.lp_calls, 'truncated': end == 'cut',
            'sched': w.sched.trace + [out] + fired + [e[0] for e in case['events']], 'stats': stats,
            'nontrivial': len(got['steps']) > 3}

def wrap_button(display, programs, plan, saved):
    'look at what pressing the button for graphs does'

    from sim.seams import SIM

    press = display.press
    display.forgiving = True

    def new_press(name):
        'press'

        if name != 'save':
            press(name)
            return

        before, old = len(SIM.text), set(os.listdir('.'))
        count = display.pressed.get('press_save', 0)
        programs.fault = plan.pop(0) if plan else None
        fault = programs.fault
        press(name)
        programs.fault = None
        error = display.failed_presses.pop()[1] if display.failed_presses else None

        if display.pressed.get('press_save', 0) > count:
            saved(fault, error, sorted(f for f in set(os.listdir('.')) - old if f.endswith('.png')), ''.join(SIM.text[before:]))

    display.press = new_press

def judge(case, w, end, error, base, display, film):
    'was a failure reported, and is what was written right?'

    from sim.seams import SIM

    fault, out, plot = case['fault'], case['out'], case['plot']
    text = ''.join(SIM.text)
    name = None

    if out in ('image', 'video'):
        name = plot.get('filename') or ('plot.png' if out == 'image' else 'anim.mp4')

    if error is not None:
        if not fault:
            raise Violation('write-failed', f'{out} failed: {type(error).__name__}: {error}') from error

        # (when its files cannot be written, the rendering library fails in several ways)
        expected = {'directory': OSError, 'quota': Exception if out == 'image' else OSError, 'program': RuntimeError, 'ended': RuntimeError}.get(fault['t'])

        if expected is None:
            from sim.seams import EXC as classes
            expected = classes[fault['exc']]

        if not isinstance(error, expected):
            raise Violation('wrong-report', f'{fault}: reported as {type(error).__name__}: {error}') from error

        if 'Result:' in text:
            raise Violation('wrong-report', f'{fault}: a result is reported before the failure')

        return

    if end != 'done':
        return

    if fault and fault['t'] in ('directory', 'program'):
        raise Violation('not-reported', f'{out}: {fault} was not reported')

    if fault and (fault['t'] == 'at' and any(k.startswith(('image_', 'video_', 'display_')) for k in SIM.fired)):
        raise Violation('not-reported', f'{out}: {fault} was not reported')

    if not w.core.is_finished():
        raise Violation('not-reported', f'{out}: the run ended with success before the analysis was finished')

    told(SIM.text, w.core.result, case['set']['stdout'])

    if out == 'closed' or out not in ('image', 'video'):
        return

    if display.images != [name]:
        raise Violation('not-written', f"'{name}' should be written, but {display.images} is")

    if out == 'image':
        if case['real']:
            check_image(name)
        return

    with open(name, encoding='ascii') as f:
        lines = f.read().split('\n')

    if lines != ['video'] + [f'frame {i}' for i in range(len(film.frames))] + ['end', '']:
        raise Violation('not-reported', f'the video has {len(lines) - 3} of {len(film.frames)} frames, which was not reported')

    film.finish(w.core.made)

def check_image(name):
    'is the image the drawing?'

    import matplotlib.pyplot as plt

    with open(name, 'rb') as f:
        data = f.read()

    fmt = name.rsplit('.', 1)[1]

    if fmt == 'pdf':
        if not data.startswith(b'%PDF') or not data.rstrip().endswith(b'%%EOF'):
            raise Violation('not-reported', f'{name} is cut off, which was not reported')
        return

    if fmt == 'svg':
        if not data.rstrip().endswith(b'</svg>'):
            raise Violation('not-reported', f'{name} is cut off, which was not reported')
        return

    buf = io.BytesIO()
    plt.gcf().savefig(buf, bbox_inches='tight', format='png')
    from PIL import Image

    try:
        with Image.open(name) as im:
            got = np.array(im.convert('RGB'))
    except OSError as e:
        raise Violation('not-reported', f'{name} cannot be read, which was not reported: {e}') from e

    with Image.open(io.BytesIO(buf.getvalue())) as im:
        want = np.array(im.convert('RGB'))

    if got.shape != want.shape or np.abs(got.astype(int) - want.astype(int)).max() > 8:
        raise Violation('image', f'{name} is not the drawing')

def again(case, w):
    'the analysis once more, with the same settings and without failures'

    import matplotlib.pyplot as plt
    from sim import trace, ui, world
    from sim.seams import SIM, running

    plt.close('all')
    calls, fired = SIM.lp_calls, SIM.fired
    SIM.reset()
    faults.arm(case['faults'])
    SIM.fired = fired
    SIM.ui = ui.Display([], max_frames=3000)
    plot = w.settings.plot
    plot.filename = None

    with running():
        w2 = world.World(case, (w.ha, w.modes), w.settings)
        w2.sched = w.sched
        w.restart()
        tr = trace.Trace()
        end = w2.run(tr.each, budget=BUDGET, max_waiting=WAITING)

    SIM.lp_calls += calls
    return tr.result(end, w2.core)

def shrinks(case):
    'simpler cases'

    import copy

    from sim.shrink import generic

    for key in ('fault', 'press'):
        if case.get(key):
            c = copy.deepcopy(case)
            c[key] = None if key == 'fault' else []
            yield c

    for i in range(len(case.get('writes', []))):
        c = copy.deepcopy(case)
        c['writes'].pop(i)
        yield c

        if case['writes'][i]['fault']:
            c = copy.deepcopy(case)
            c['writes'][i]['fault'] = None
            yield c

    yield from generic(case)
