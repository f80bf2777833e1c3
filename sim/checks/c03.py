'''C03: splitting merged sets on demand loses nothing and ends in the exact verdict'''

import numpy as np

from sim import faults, gen
from sim.util import Skip, Violation, rng_for

def generate(rng, tier):
    'a case'

    case = gen.random_case(rng, true_guard=0.15, self_loop=0.3, eq_guard=0.02, multi_init=0.25, dimchange=0.08, error=1.0,
                           max_steps=10, urgent=0.08)

    if rng.random() < 0.12:
        case = gen.chain_case(rng)

    s, st = case['set'], case['strat']
    s['tt'] = False
    s['stop_con'] = rng.random() < 0.35
    s['stop_agg'] = rng.random() < 0.08
    s['approx'] = rng.choice([0, 0, 0, 0, 0, 1, 1, 2])
    s['stdout'] = rng.choice([0, 0, 0, 2])
    st['kind'] = rng.choice(['sim', 'sim', 'stock'])
    st['group'] = rng.choice(['path', 'path', 'mode'])
    st['agg'] = rng.choice(['box', 'arnoldi', 'chull', 'mix'])
    st['deagg'] = True
    case['faults'] = faults.benign(rng, 0.3)

    if s['approx'] == 2:
        for m in case['modes']: # the approximation needs a noticeable bloating
            if m['A'] is not None and m['B'] is not None:
                m['B'] = m['Uc'] = m['Ur'] = None

    gen.vary(rng, case, 0.03)

    return case

class Recorder:
    'walks the aggregation DAG after every step: snapshots of all explored sets, step bound, splits'

    def __init__(self, case):
        self.case = case
        self.snaps = {}     # (id(node), local step) -> RefSet
        self.alive = []     # keeps the nodes alive, so that ids stay unique
        self.splits = 0
        self.replaying = False
        self.merges = 0
        self.steps = 0

    @staticmethod
    def nodes(core):
        'all nodes of the DAG'

        rv, todo = [], list(core.aggdag.roots)

        if core.aggdag.cur_node is not None:
            todo.append(core.aggdag.cur_node)

        seen = set()

        while todo:
            n = todo.pop()

            if id(n) in seen:
                continue

            seen.add(id(n))
            rv.append(n)
            todo += [op.child_node for op in transitions_of(n) if op.child_node is not None]

        return rv

    def each(self, core, when):
        'hook'

        from sim.monitor import MAX_COLS, MAX_SIZE, TooLarge, directions
        from sim.ref import RefSet

        if when == 'pre':
            return

        self.steps += 1
        now = bool(core.aggdag.deagg_man.doing_replay())
        self.splits += int(now and not self.replaying)
        self.replaying = now

        for n in self.nodes(core):
            s = n.stateset
            key = (id(n), s.cur_step_in_mode)

            if key in self.snaps or s.mode.a_csr is None:
                continue

            if len(n.parent_ops) > 1 and s.cur_step_in_mode == 0:
                self.merges += 1

            if s.lpi.get_num_cols() > MAX_COLS:
                raise TooLarge()

            if s.cur_steps_since_start[0] > self.case['N']:
                raise Violation('bound', f"a set in mode '{s.mode.name}' was advanced to steps {s.cur_steps_since_start}, past "
                                f"the bound {self.case['N']}")

            snap = RefSet.snapshot(s.lpi)

            for d in directions(snap.dims, 'big')[:2 * snap.dims]:
                v = snap.support(d)

                if v is not None and v > MAX_SIZE:
                    raise TooLarge()

            self.snaps[key] = snap, n is not core.aggdag.cur_node
            self.alive.append(n)

def transitions_of(node):
    'successors of a node'
    return [op for op in node.op_list if hasattr(op, 'child_node')]

def last_step(node):
    'the last step (in the mode) up to which a node was explored'

    rv = node.stateset.cur_step_in_mode

    if node.op_list and not hasattr(node.op_list[-1], 'child_node') and node.node_left_invariant():
        rv = max(rv, node.op_list[-1].step)

    return rv

def between(case, prev, before, after):
    '''a state between two steps which an approximation model has to cover (None if there is none)

    it is covered only if the states before (the same fraction of a step after each of the earlier steps) do not leave the
    invariant; the set at step 0 is recorded before it is bloated
    '''

    from sim.ref import expm

    m = case['modes'][prev.mode]
    approx = case['set']['approx']

    if not approx:
        return None

    if approx == 1:
        return 0.5 * (before + after)

    if m['B'] is not None:
        return None

    return expm(np.array(m['A']) * case['h'] * 0.4).dot(before)

def within(mode, x):
    'does a state satisfy the invariant of its mode?'
    return all(float(np.dot(row, x)) <= rhs - 1e-7 for row, rhs in zip(mode['inv'], mode['invr']))

def covered(core, rec, case, run, names):
    'is a concrete execution (list of (node, state)) covered by the final DAG?'

    trans = core.hybrid_automaton.transitions
    mode_of = {m['name']: m for m in case['modes']}
    pending = {id(op) for op in core.aggdag.waiting_list}
    first, x0 = run[0]
    inside = True

    def holds(dag_node, local, x):
        'is the state in the explored set (if that step was recorded)?'

        snap, replayed = rec.snaps.get((id(dag_node), local), (None, False))

        if snap is None or snap.contains(x, 2e-5):
            return True

        # a replay may intersect the invariant within the step that reaches it
        m = mode_of[dag_node.stateset.mode.name]

        return replayed and any(float(np.dot(row, x)) > rhs - 1e-7 for row, rhs in zip(m['inv'], m['invr']))

    cur = [n for n in core.aggdag.roots if n.stateset.mode.name == names[first.mode] and
           any(op.parent_node is None for op in n.parent_ops) and holds(n, 0, x0)]
    where = (f"mode '{names[first.mode]}' step 0", x0)

    for (prev, before), (node, x) in zip(run, run[1:]):
        if not cur:
            return where

        if node.trans is None:
            mid = between(case, prev, before, x)
            m = case['modes'][node.mode]
            inside = (inside or prev.k == 0) and (mid is None or within(m, mid))

            if inside and mid is not None and prev.k > 0: # under an approximation model, sets also hold what happens until the next step
                cur = [n for n in cur if holds(n, prev.k, mid)]

                if not cur:
                    return f"mode '{names[node.mode]}' between steps {prev.total} and {node.total}", mid

            # the set which holds the state before has to have been explored up to this step (a replay does not step the
            # parts through steps in which the merged set had no transitions and met no invariant: its plot stays)
            cur = [n for n in cur if last_step(n) >= node.k and holds(n, node.k, x)]
        else:
            nxt = []

            for n in cur:
                for op in transitions_of(n):
                    if op.transition is trans[node.trans] and op.step == prev.k:
                        if op.child_node is not None:
                            if op.child_node not in nxt and holds(op.child_node, 0, x):
                                nxt.append(op.child_node)
                        elif id(op) in pending:
                            return None # not explored yet

            cur = nxt

        where = (f"mode '{names[node.mode]}' at step {node.total} ({node.k} in the mode, entered by {node.trans})", x)

    return None if cur else where

def run(case):
    'run a case'

    from sim import world
    from sim.refexplore import execution, explore
    from sim.seams import SIM, running

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()
    faults.arm(case['faults'])

    with running():
        w = world.World(case)
        rec = Recorder(case)
        end = w.run(rec.each, None, budget=400)

    out = {'splits': rec.splits, 'merges': rec.merges, 'sim_steps': rec.steps, 'h': case['h'], 'sched': w.sched.trace,
           'truncated': end == 'cut', 'nontrivial': rec.splits > 0, 'lp_calls': SIM.lp_calls}

    if end == 'nothing' or not rec.merges:
        return out

    core = w.core
    res = core.result

    if not rec.splits and not res.has_aggregated_error:
        return out # no reason to split: see C01 and C02

    exact = explore(case, 160)
    out['exact_complete'] = exact.complete
    approx = case['set']['approx'] != 0

    if res.has_concrete_error and exact.complete and not exact.err_possible and not approx:
        raise Violation('false-unsafe', 'reported as concretely unsafe, but no error mode is reachable')

    if end != 'done':
        return out

    unsafe = res.has_concrete_error or res.has_aggregated_error

    if exact.err_certain and not unsafe:
        raise Violation('unsound', f'an error mode is reachable at step {exact.err_first}, but the analysis says safe')

    stopped = unsafe and (case['set']['stop_agg'] or res.has_concrete_error and case['set']['stop_con'])

    if exact.err_certain and not res.has_concrete_error and not stopped and not approx:
        raise Violation('verdict', f'an error mode is reachable at step {exact.err_first}, but after all splitting the analysis '
                        'is not concretely unsafe')

    out['verdicts'] = 1

    if stopped:
        return out

    names = [m['name'] for m in case['modes']]
    rng = rng_for('c03', case['h'], case['N'], len(exact.nodes))
    ends = [i for i, n in enumerate(exact.nodes) if n.certain and
            not (case['set']['skip0'] and skipped(case, exact, i))]
    out['executions'] = 0

    for i in rng.sample(ends, min(20, len(ends))):
        ex = execution(exact, i, rng)

        if ex is None:
            continue

        out['executions'] += 1
        lost = covered(core, rec, case, ex, names)

        if lost:
            raise Violation('lost-execution', f"no explored set covers state {[float(x) for x in lost[1]]} in {lost[0]} of the "
                            f"execution {[(names[n.mode], n.total, n.trans) for n, _ in ex]}")

    return out

def skipped(case, exact, index):
    'does the path stay for more than one step in a mode with zero dynamics?'

    from sim.refexplore import path_to

    for n in path_to(exact, index):
        m = case['modes'][n.mode]

        if n.k > 1 and m['B'] is None and not any(any(row) for row in m['A']):
            return True

    return False
