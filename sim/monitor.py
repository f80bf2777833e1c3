'''
Lock-step monitor: after every step of the real analysis, the reference model makes the same step and the sets,
successors, times and flags are compared.
'''

import numpy as np

from sim import ref
from sim.ref import RefSet, DELTA, TOL
from sim.util import TooLarge, Violation, rng_for

MAX_SIZE = 2000.0
MAX_COLS = 250

def tt_vars_of(m):
    'variables whose derivative only depends on constant variables'

    A = np.array(m['A'], dtype=float)
    B = np.zeros((len(A), 1)) if m.get('B') is None else np.array(m['B'], dtype=float)
    const = [i for i in range(len(A)) if not A[i].any() and not B[i].any()]
    return [i for i in range(len(A)) if A[i].any() and not B[i].any() and all(j in const for j in np.nonzero(A[i])[0])]

def tt_rows(case, t):
    'rows of the guard of a transition which are (statically) time-triggered'

    m = case['modes'][t['from']]
    tts = tt_vars_of(m)

    if not tts:
        return []

    only_tt = lambda row: all(x == 0 or i in tts for i, x in enumerate(row))

    if not all(only_tt(row) for row in m['inv']):
        return []

    rv = []

    for r, (row, rhs) in enumerate(zip(t['G'], t['g'])):
        if only_tt(row):
            for irow, irhs in zip(m['inv'], m['invr']):
                if irhs == -rhs and np.array_equal(np.array(irow), -np.array(row)):
                    rv.append(r)
                    break

    return rv

def confirm_empty(s, shift):
    'second opinion (another solver) on emptiness'

    G, g, E, e = s._lp(shift).matrices()
    return ref.highs(G, g, E, e, np.zeros(s._lp(shift).n))[0]

def highs_support(s, d, shift):
    'second opinion on a support value; None if empty or unknown'

    lp = s._lp(shift)
    st, val, _ = lp.highs(list(np.array(d, dtype=float).dot(s.M)))

    if st == 'unbounded':
        return float('inf')

    return None if st != 'opt' else val + float(np.dot(d, s.m))

def compare_sets(lpi, expected, dirs, what, cls='set', lower=True, upper=True):
    '''compare the real set with the reference set by support values in the passed-in directions

    raises Violation; returns largest difference
    '''

    raw = ref.RawLP.copy_of(lpi)

    if lpi.dims != expected.dims:
        raise Violation(cls, f'{what}: has {lpi.dims} variables, expected {expected.dims}')

    worst = 0.0

    for d in dirs:
        real = ref.real_support(lpi, d, raw)
        val = expected.support(d)

        if val is not None and abs(val) > MAX_SIZE:
            raise TooLarge()

        if real is not None and val is not None and np.isfinite(real) and np.isfinite(val):
            diff = abs(real - val)

            if diff <= 1e-6 * (1 + abs(val)):
                worst = max(worst, diff)
                continue

        lo = expected.support(d, -DELTA)
        up = expected.support(d, DELTA)

        if lower and lo is not None and (real is None or real < lo - TOL * (1 + abs(lo))):
            lo, r2 = highs_support(expected, d, -DELTA), raw.highs(list(d), lpi.cur_vars_offset)[1]

            if lo is not None and np.isfinite(lo) and (r2 is None or r2 < lo - TOL * (1 + abs(lo))):
                raise Violation(cls + '-small', f'{what}: states are missing in direction {list(d)}: the set extends to '
                                f'{real}, expected {val} (at least {lo})')

        if upper and real is not None and (up is None or real > up + TOL * (1 + abs(up))):
            if up is None and confirm_empty(expected, DELTA) != 'infeasible':
                continue

            up2, r2 = highs_support(expected, d, DELTA), raw.highs(list(d), lpi.cur_vars_offset)[1]

            if r2 is None or up2 is not None and r2 <= up2 + TOL * (1 + abs(up2)):
                continue

            raise Violation(cls + '-large', f'{what}: unreachable states in direction {list(d)}: the set extends to {real}, '
                            f'expected {val} (at most {up})')

    return worst

def directions(n, *key, extra=()):
    'axis directions plus a few deterministic random ones'

    rv = []

    for i in range(n):
        v = np.zeros(n)
        v[i] = 1.0
        rv += [v, -v]

    if n > 1:
        rng = rng_for('dirs', n, *key)

        for _ in range(2):
            rv.append(np.array([rng.choice([-1, -0.5, 0.5, 1, 0.25]) for _ in range(n)]))

    for row in extra:
        v = np.array(row, dtype=float)
        rv += [v, -v]

    return rv

class Track:
    'reference for one explored or pending set'

    def __init__(self, refset, mode, steps, concrete, path):
        self.ref = refset
        self.mode = mode          # index
        self.steps = list(steps)  # [min, max] since start
        self.concrete = concrete
        self.k = 0                # local step
        self.path = path          # ((mode, k, transition), ...)
        self.tt_ok = False        # may be dropped because of a time-triggered transition

class Monitor:
    'lock-step monitor of one analysis (exact semantics, with merging, without splitting)'

    def __init__(self, case, world):
        self.case = case
        self.world = world
        self.h, self.N = case['h'], case['N']
        self.set = case['set']
        self.pending = {}      # id(op) -> (op, Track)
        self.cur = None        # Track
        self.cur_state = None
        self.cur_node = None
        self.agg_err = False
        self.con_err = False
        self.stopped = False
        self.pre = None
        self.stats = {'steps': 0, 'pops': 0, 'merges': 0, 'merged': 0, 'transitions': 0, 'compares': 0, 'left_inv': 0,
                      'bound': 0, 'dontcare': 0, 'tt': 0, 'zero': 0, 'errors': 0}
        self.states = set()
        self.max_diff = 0.0
        self.keep = False
        self.log = []          # explored sets, if keep
        self.prep()

    def prep(self):
        'matrices of the modes'

        self.phi, self.gam, self.guards = [], [], []

        for m in self.case['modes']:
            if m['A'] is None:
                self.phi.append(None)
                self.gam.append(None)
                continue

            phi, gam = ref.zoh(m['A'], m.get('B'), self.h)
            self.phi.append(phi)
            self.gam.append(gam)

        eps = self.h / self.N / 1000.0
        self.eps = eps

        for t in self.case['trans']:
            rows, rhs = [list(r) for r in t['G']], list(t['g'])
            soft = [0.0] * len(rhs)
            tts = tt_rows(self.case, t) if self.set['tt'] else []

            for r in tts:
                soft[r] = eps

            to = self.case['modes'][t['to']]

            if self.set['strengthen'] and t['from'] != t['to'] and not tts and t['R'] is None:
                rows += [list(r) for r in to['inv']]
                rhs += list(to['invr'])
                soft += [0.0] * len(to['invr'])

            self.guards.append((rows, rhs, soft if tts else None, tts))

    def name(self, i):
        'mode name'
        return self.case['modes'][i]['name']

    def dirs(self, track, n):
        'directions to compare in'

        m = self.case['modes'][track.mode]
        extra = []

        if m['A'] is not None:
            extra += m['inv'][:1]

        return directions(n, track.mode, track.k, extra=extra)

    def started(self, core):
        'called after setup: the initial pending sets'

        inits = []

        for i, s in enumerate(self.case['init']):
            from sim.world import ref_init
            r = ref_init(s)
            m = self.case['modes'][s['mode']]
            inits.append((i, s['mode'], r.intersect(m['inv'], m['invr'])))

        ops = list(core.aggdag.waiting_list)
        j = 0

        for i, mode, r in inits:
            f = r.feasible()
            match = None

            if j < len(ops) and ops[j].poststate.mode.name == self.name(mode):
                match = ops[j]

            if f is False:
                continue

            if f is None: # too close to call: is it the next one?
                if len(ops) - j > sum(1 for (_, _, q) in inits[i + 1:] if q.feasible() is True):
                    j += 1
                    self.pending[id(match)] = (match, Track(r, mode, [0, 0], True, (('init', i),)))
                continue

            if match is None:
                raise Violation('init', f'initial set {i} is missing from the pending sets')

            j += 1
            tr = Track(r, mode, [0, 0], True, (('init', i),))
            self.pending[id(match)] = (match, tr)
            self.check_state(match.poststate, tr, f'initial set {i}')

        if j != len(ops):
            raise Violation('init', f'{len(ops)} pending sets after setup, expected {j}')

    def none_started(self):
        'setup found no initial states'

        from sim.world import ref_init

        for i, s in enumerate(self.case['init']):
            m = self.case['modes'][s['mode']]

            if ref_init(s).intersect(m['inv'], m['invr']).feasible() is True:
                raise Violation('init', f'initial set {i} was removed although it has states in the invariant')

    def check_state(self, state, tr, what, compare=True):
        'compare fields and set'

        if state.mode.name != self.name(tr.mode):
            raise Violation('mode', f'{what}: in mode {state.mode.name}, expected {self.name(tr.mode)}')

        if state.cur_step_in_mode != tr.k:
            raise Violation('step', f'{what}: at step {state.cur_step_in_mode} in the mode, expected {tr.k}')

        want = [tr.steps[0] + tr.k, tr.steps[1] + tr.k]

        if list(state.cur_steps_since_start) != want:
            raise Violation('time', f'{what}: at steps {list(state.cur_steps_since_start)} since start, expected {want}')

        if bool(state.is_concrete) != tr.concrete:
            raise Violation('concrete', f'{what}: is_concrete={state.is_concrete}, expected {tr.concrete}')

        if compare:
            self.stats['compares'] += 1
            diff = compare_sets(state.lpi, tr.ref, self.dirs(tr, tr.ref.dims), what)
            self.max_diff = max(self.max_diff, diff)

    def where(self, tr):
        'text'
        return f"mode '{self.name(tr.mode)}' step {tr.k} (path {tr.path})"

    def each(self, core, when):
        'called around every step'

        if when == 'pre':
            self.pre = (core.aggdag.get_cur_state(), list(core.aggdag.waiting_list))
        else:
            self.after(core)

    def after(self, core):
        'a step was made'

        self.stats['steps'] += 1
        node = core.aggdag.cur_node

        if node is not None and node.stateset.lpi.get_num_cols() > MAX_COLS:
            raise TooLarge()

        prev_state, prev_wait = self.pre
        state = core.aggdag.get_cur_state()
        wait = list(core.aggdag.waiting_list)
        prev_ids = {id(op) for op in prev_wait}
        ids = {id(op) for op in wait}

        if len(ids) != len(wait):
            raise Violation('pending', 'a pending set is in the waiting list twice')

        if self.stopped:
            raise Violation('stop', 'the analysis went on after it should have stopped at an error')

        new = [op for op in wait if id(op) not in prev_ids]
        gone = [op for op in prev_wait if id(op) not in ids]

        if prev_state is None:
            self.popped(core, gone, state, new)
        else:
            if gone:
                raise Violation('pending', f'{len(gone)} pending sets vanished during a continuous step')

            self.stepped(core, prev_state, state, new)

        self.check_flags(core)

    def check_flags(self, core):
        'verdict so far'

        res = core.result

        if bool(res.has_concrete_error) != self.con_err:
            raise Violation('verdict', f'has_concrete_error={res.has_concrete_error}, expected {self.con_err}')

        if bool(res.has_aggregated_error) != self.agg_err:
            raise Violation('verdict', f'has_aggregated_error={res.has_aggregated_error}, expected {self.agg_err}')

        if self.stopped and not core.is_finished():
            raise Violation('stop', 'the analysis does not stop at the error it was told to stop at')

    def chosen(self, core, gone):
        'the strategies of hylaa take the set and merge the ones which they document'

        kind, strat = self.case['strat']['kind'], core.settings.aggstrat

        if kind in ('unagg', 'base') and len(gone) != 1:
            raise Violation('grouping', f'{len(gone)} pending sets were merged without an aggregation strategy')

        if kind != 'stock':
            return

        def score(tr):
            'lowest score is taken first'

            lo, hi = tr.steps
            return lo if strat.pop_type == strat.POP_LOWEST_MINTIME else -hi if strat.pop_type == strat.POP_LARGEST_MAXTIME \
                else lo + hi

        def together(a, b):
            'should these be merged?'

            same = a.poststate.mode is b.poststate.mode
            return same and (not strat.require_same_path or a.parent_node is b.parent_node and a.transition is b.transition)

        best = min(score(tr) for _, tr in self.pending.values())
        taken = {id(op) for op in gone}

        for first in [op for op, tr in self.pending.values() if score(tr) == best]:
            group = [op for op, _ in self.pending.values() if together(op, first)]

            if taken == {id(op) for op in group}:
                return

            # errors and initial sets are taken alone
            alone = first.poststate.mode.a_csr is None or any(op.parent_node is None for op in group)

            if alone and len(gone) == 1 and any(op is gone[0] for op in group):
                return

        raise Violation('grouping', f'the taken sets start at {[self.pending[id(op)][1].steps for op in gone]}, all of the '
                        f'pending ones at {sorted(tr.steps for _, tr in self.pending.values())}: these do not belong together '
                        f'or are not next (order {strat.pop_type}, same path required: {strat.require_same_path})')

    def popped(self, core, gone, state, new):
        'a pop'

        self.stats['pops'] += 1

        if not gone:
            raise Violation('pending', 'no pending set was taken')

        for op in gone:
            if id(op) not in self.pending:
                raise Violation('pending', 'an unknown pending set was taken')

        self.chosen(core, gone)
        tracks = [self.pending.pop(id(op))[1] for op in gone]
        node = gone[0].child_node

        for op in gone:
            if op.child_node is not node or node is None:
                raise Violation('pending', 'taken pending sets do not lead to the same explored set')

        self.cur_node = node
        real = node.stateset

        if len(tracks) == 1:
            tr = tracks[0]
            self.cur = tr
        else:
            tr = self.merged(tracks, gone, real)

        m = self.case['modes'][tr.mode]

        if m['A'] is None:
            if state is not None or new:
                raise Violation('error-mode', 'an error mode was explored')
            self.cur = None
            return

        if len(tracks) == 1:
            inv = tr.ref.intersect(m['inv'], m['invr'])
            f = inv.feasible()
            self.care(f)

            if f is True and state is None and confirm_empty(inv, -DELTA) == 'opt':
                raise Violation('invariant', f'{self.where(tr)}: dropped although states are in the invariant')
            if f is False and state is not None and confirm_empty(inv, DELTA) == 'infeasible':
                raise Violation('invariant', f'{self.where(tr)}: kept although no state is in the invariant')

            tr.ref = inv
        else:
            if state is None: # merged set left at once: members must be outside
                for op_tr in tracks:
                    if op_tr.ref.intersect(m['inv'], m['invr']).feasible() is True:
                        raise Violation('merge', f'{self.where(tr)}: merged set dropped although members are in the invariant')

        if state is None:
            self.stats['left_inv'] += 1
            self.cur = None

            if new:
                raise Violation('successor', f'{self.where(tr)}: successors of a set outside of the invariant')
            return

        self.cur_state = state
        self.check_state(state, tr, self.where(tr), compare=len(tracks) == 1)
        self.note(tr)

        if self.set['urgent']:
            self.guards_checked(core, tr, new)
        elif new:
            raise Violation('successor', f'{self.where(tr)}: successors before any time has passed')

    def merged(self, tracks, ops, real):
        'several pending sets were merged'

        self.stats['merges'] += 1
        self.stats['merged'] += len(tracks)
        modes = {t.mode for t in tracks}

        if len(modes) != 1:
            raise Violation('merge', f'sets of different modes were merged: {sorted(self.name(m) for m in modes)}')

        mode = tracks[0].mode
        m = self.case['modes'][mode]
        steps = [min(t.steps[0] for t in tracks), max(t.steps[1] for t in tracks)]
        tr = Track(None, mode, steps, False, (('merge', len(tracks), tracks[0].steps, tracks[-1].steps),))
        self.cur = tr
        lpi = real.lpi
        what = f"merge of {len(tracks)} sets in '{self.name(mode)}'"

        if lpi.dims != len(m['A']):
            raise Violation('merge', f'{what}: {lpi.dims} variables')

        # tightness is checked against the part of the merge in the invariant (already applied to the real set)
        raw = ref.RawLP.copy_of(lpi)
        tr.ref = RefSet.snapshot(lpi)
        n = lpi.dims
        dirs = directions(n, 'merge', self.stats['merges'], extra=m['inv'][:2])
        members = [(t.ref, t.ref.intersect(m['inv'], m['invr'])) for t in tracks]

        for d in dirs:
            val = ref.real_support(lpi, d, raw)

            for full, part in members:
                lo = part.support(d, -DELTA)

                if lo is not None and (val is None or val < lo - TOL * (1 + abs(lo))):
                    hi = raw.highs(list(d), lpi.cur_vars_offset)[1]

                    if hi is None or hi < lo - TOL * (1 + abs(lo)):
                        raise Violation('merge-small', f'{what}: a member extends to {lo} in direction {list(d)}, the merged '
                                        f'set only to {val}')

        # a merge of feasible sets is never larger than the bounding box / hull of its members
        bounds = []
        bad = False

        for i in range(n):
            v = np.zeros(n)
            v[i] = 1.0
            ups = [full.support(v, DELTA) for full, _ in members]
            los = [full.support(-v, DELTA) for full, _ in members]

            if any(x is None or not np.isfinite(x) for x in ups + los):
                bad = True
                break

            bounds.append((-max(los), max(ups)))

        if not bad:
            chull = ops[0].child_node.agg_type_from_parents
            is_chull = bool(chull is not None and chull.is_chull)

            if is_chull:
                outer = ref.hull([full for full, _ in members])
            else:
                outer = RefSet.box(bounds)

            outer = outer.intersect(m['inv'], m['invr'])

            for d in dirs:
                val = ref.real_support(lpi, d, raw)
                up = outer.support(d, DELTA)

                if val is not None and up is not None and val > up + 2 * TOL * (1 + abs(up)):
                    raise Violation('merge-large', f'{what}: extends to {val} in direction {list(d)}, beyond its '
                                    f"{'hull' if is_chull else 'bounding box'} ({up})")

            if is_chull:
                for d in dirs:
                    lo = outer.support(d, -DELTA)
                    val = ref.real_support(lpi, d, raw)

                    if lo is not None and (val is None or val < lo - 2 * TOL * (1 + abs(lo))):
                        raise Violation('merge-small', f'{what}: the hull extends to {lo} in direction {list(d)}, the merged '
                                        f'set only to {val}')

        return tr

    def care(self, f):
        'count decisions which are too close to call'

        if f is None:
            self.stats['dontcare'] += 1

    def note(self, tr):
        'coverage'
        self.states.add((tr.mode, tr.k, tr.steps[0], len(tr.path)))

        if self.keep:
            self.log.append((tr.mode, tr.steps[0], tr.steps[1], tr.k, tr.ref))

    def stepped(self, core, prev_state, state, new):
        'a continuous step'

        tr = self.cur
        m = self.case['modes'][tr.mode]
        node_state = self.cur_node.stateset

        if prev_state is not node_state:
            raise Violation('pending', 'the current set changed')

        if tr.steps[0] + tr.k >= self.N:
            self.stats['bound'] += 1

            if state is not None or new or node_state.cur_step_in_mode != tr.k:
                raise Violation('bound', f'{self.where(tr)}: went on past the step bound {self.N}')

            self.cur = None
            return

        advanced = node_state.cur_step_in_mode != tr.k

        if not advanced and tr.tt_ok and state is None:
            self.stats['tt'] += 1

            if new:
                raise Violation('successor', f'{self.where(tr)}: successors while dropping the set')
            self.cur = None
            return

        inv = tr.ref.intersect(m['inv'], m['invr'])
        f = inv.feasible()
        self.care(f)

        if not advanced:
            if state is not None:
                raise Violation('progress', f'{self.where(tr)}: neither advanced nor left')
            if f is True and confirm_empty(inv, -DELTA) == 'opt':
                raise Violation('invariant', f'{self.where(tr)}: dropped although states are in the invariant')
            if new:
                raise Violation('successor', f'{self.where(tr)}: successors while dropping the set')
            self.stats['left_inv'] += 1
            self.cur = None
            return

        if f is False and confirm_empty(inv, DELTA) == 'infeasible':
            raise Violation('invariant', f'{self.where(tr)}: went on although no state is in the invariant')

        tr.ref = inv.step(self.phi[tr.mode], self.gam[tr.mode], m.get('Uc'), m.get('Ur'))
        tr.k += 1
        tr.tt_ok = False
        self.check_state(node_state, tr, self.where(tr))
        self.note(tr)
        self.guards_checked(core, tr, new)
        zero = not np.array(m['A']).any() and m.get('B') is None and self.set['skip0']

        if zero:
            self.stats['zero'] += 1

            if state is not None and not self.stopped:
                # not skipping is merely slower
                pass
            else:
                self.cur = None
        elif state is None:
            raise Violation('dropped', f'{self.where(tr)}: dropped right after a step')

    def guards_checked(self, core, tr, new):
        'successors of the current set'

        by_trans = {}

        for op in new:
            if op.parent_node is not self.cur_node:
                raise Violation('successor', 'a new pending set does not come from the current set')
            by_trans.setdefault(op.transition, []).append(op)

        trans = self.world.ha.transitions
        known = set()
        res = core.result

        for ti, t in enumerate(self.case['trans']):
            if t['from'] != tr.mode:
                continue

            real_t = trans[ti]
            known.add(real_t)
            ops = by_trans.get(real_t, [])
            rows, rhs, soft, tts = self.guards[ti]
            g = tr.ref.intersect(rows, rhs, soft)
            f = g.feasible()
            self.care(f)
            is_err = self.case['modes'][t['to']]['A'] is None
            stops = is_err and (self.set['stop_agg'] or tr.concrete and self.set['stop_con'])
            what = f'{self.where(tr)}: transition {ti} to {self.name(t["to"])}'

            if len(ops) > 1:
                raise Violation('successor', f'{what} was taken {len(ops)} times')

            if stops:
                flag = res.has_concrete_error if tr.concrete else res.has_aggregated_error
                before = self.con_err if tr.concrete else self.agg_err

                if f is False and flag and not before and confirm_empty(g, DELTA) != 'infeasible' or \
                   f is True and not flag and confirm_empty(g, -DELTA) != 'opt':
                    f = None # the two solvers of the reference disagree

                if f is True or f is None and flag and not before:
                    self.error_seen(tr)
                    self.stopped = True
                continue

            if f is False and ops:
                if confirm_empty(g, DELTA) == 'infeasible':
                    raise Violation('successor-extra', f'{what} was taken although its guard is false')

                f = None # the two solvers of the reference disagree

            if f is True and not ops and not self.stopped:
                if confirm_empty(g, -DELTA) != 'opt':
                    f = None
                elif not (res.has_concrete_error or res.has_aggregated_error) or not core.is_finished():
                    raise Violation('successor-missing', f'{what} was not taken although its guard is true')

            if is_err and (f is True or f is None and ops):
                self.error_seen(tr)

            if not ops:
                continue

            self.stats['transitions'] += 1
            op = ops[0]

            if op.step != tr.k:
                raise Violation('successor', f'{what}: recorded at step {op.step}')

            post = Track(g.reset(t['R'], t['M'], t['C'], t['r']), t['to'],
                         [tr.steps[0] + tr.k, tr.steps[1] + tr.k], tr.concrete, tr.path + ((tr.mode, tr.k, ti),))
            self.pending[id(op)] = (op, post)
            self.check_state(op.poststate, post, f'{what}, successor')

            if tts and self.flat(tr, ti):
                tr.tt_ok = True

        for real_t in by_trans:
            if real_t not in known:
                raise Violation('successor', f'successor by a transition of another mode: {real_t}')

    def error_seen(self, tr):
        'an error mode was reached'

        self.stats['errors'] += 1

        if tr.concrete:
            self.con_err = True
        else:
            self.agg_err = True

    def flat(self, tr, ti):
        'is the clock of a time-triggered transition a single value, on the boundary and advancing?'

        t = self.case['trans'][ti]
        m = self.case['modes'][tr.mode]
        A = np.array(m['A'], dtype=float)
        lim = 2 * self.eps * 1.01 + 1e-6

        for r in self.guards[ti][3]:
            row = np.array(t['G'][r])
            ok = True

            for var in np.nonzero(row)[0]:
                for a in np.nonzero(A[var])[0]:
                    v = np.zeros(len(A))
                    v[a] = 1
                    hi, lo = tr.ref.support(v), -tr.ref.support(-v)

                    if hi - lo > lim or abs(hi) < self.eps:
                        ok = False

            hi, lo = tr.ref.support(row), -tr.ref.support(-row)

            rate = tr.ref.support(row.dot(A))

            if ok and hi - lo <= lim and lo <= t['g'][r] + self.eps + 1e-6 and rate < -self.eps / 2:
                # the time-triggered condition is the one whose inverse is in the invariant, which is being left
                return True

        return False

    def finished(self, core):
        'final checks after the analysis has finished'

        if not self.stopped:
            if self.cur is not None or core.aggdag.get_cur_state() is not None or core.aggdag.waiting_list or self.pending:
                raise Violation('unfinished', 'the analysis finished with pending sets')

        self.check_flags(core)

def told(text, result, stdout):
    'what a finished analysis printed agrees with its result (shown at every verbosity except the lowest)'

    lines = [line for line in ''.join(text).split('\n') if 'Result:' in line]

    if len(lines) != (1 if stdout >= 1 else 0):
        raise Violation('told', f'{len(lines)} results printed at verbosity {stdout}')

    if lines:
        safe, merged = 'is safe' in lines[0], 'aggregation' in lines[0]
        expected = not result.has_concrete_error, bool(result.has_aggregated_error and not result.has_concrete_error)

        if (safe, merged) != expected:
            raise Violation('told', f"printed '{lines[0].strip()}', but error modes were reached concretely: "
                            f'{result.has_concrete_error}, with merging: {result.has_aggregated_error}')
