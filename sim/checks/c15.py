'''C15: with an approximation model, the explored sets cover continuous time'''

import numpy as np

from sim import faults, gen, ref
from sim.util import Skip, Violation, rng_for

SUB = 8          # parts of a step: inputs are constant in each
SLACK = 1e-6
CHULL, LGG = 1, 2

def generate(rng, tier):
    'a case'

    model = rng.choice([LGG, LGG, CHULL])
    case = gen.random_case(rng, inputs=rng.choice([0.0, 0.6]), error=0.6, resets=0.5, mink=0.2,
                           max_steps=rng.choice([5, 8]), max_modes=3, dims=((1, 3), (2, 5), (3, 2)), multi_init=0.3, inv=0.6,
                           true_guard=0.08, width=(0.0, 0.1, 0.3, 0.6), self_loop=0.2, affine=0.4)
    s, st = case['set'], case['strat']
    s['approx'] = model
    s['tt'] = False
    s['stop_con'] = rng.random() < 0.1
    s['skip0'] = rng.random() < 0.3
    st['kind'] = rng.choice(['sim', 'stock', 'unagg'])

    if st['kind'] != 'unagg' and rng.random() < 0.6:
        st['group'] = rng.choice(['path', 'path', 'mode'])
        st['agg'] = rng.choice(['box', 'arnoldi', 'chull', 'mix'])
        st['deagg'] = rng.random() < 0.15

    case['faults'] = faults.benign(rng, 0.3)
    case['points'] = rng.randrange(10**6)

    return case

def slack(rows, rhs, x):
    'smallest slack'
    return min((v - float(np.dot(r, x)) for r, v in zip(rows, rhs)), default=1e9)

class Body:
    'one continuous trajectory (or, for the convex hull model, a path of points between neighbouring states)'

    def __init__(self, cov, mi, x0, rng):
        self.cov, self.mi, self.rng = cov, mi, rng
        self.m = cov.case['modes'][mi]
        self.x = np.array(x0, dtype=float)
        self.alive = slack(self.m['inv'], self.m['invr'], self.x) >= SLACK
        self.k = 0
        self.A = np.array(self.m['A'], dtype=float)
        self.B = None if self.m['B'] is None else np.array(self.m['B'], dtype=float)
        self.input_kind = rng.choice(['constant', 'switch', 'switch', 'slow'])
        self.u = None
        self.lam = [0.0, 1.0, round(rng.random(), 3)]
        self.lam_alive = [self.alive] * 3
        self.samples = []

    def new_input(self, j):
        'input of the next part of a step'

        if self.B is None:
            return None

        if self.u is None or self.input_kind == 'switch' or self.input_kind == 'slow' and j == 0:
            pts = self.cov.corners[self.mi]
            self.u = self.rng.choice(pts) if self.rng.random() < 0.8 else sum(pts) / len(pts)

        return self.u

    def advance(self):
        'states between the current and the next step'

        self.samples = []

        if self.cov.case['set']['approx'] == CHULL:
            phi, gam = self.cov.whole[self.mi]
            y = phi.dot(self.x)

            if gam is not None:
                y = y + gam.dot(self.new_input(0))

            for i, lam in enumerate(self.lam):
                z = (1 - lam) * self.x + lam * y
                self.lam_alive[i] = self.lam_alive[i] and slack(self.m['inv'], self.m['invr'], z) >= SLACK

                if self.lam_alive[i]:
                    self.samples.append(z)

            self.x = y
            self.k += 1
            return

        d = self.cov.case['h'] / SUB

        for j in range(SUB + 1):
            if not self.alive:
                return
            if j in self.cov.when or j in (0, SUB):
                self.samples.append(self.x)
            if j == SUB:
                break

            u = self.new_input(j)
            force = np.zeros(len(self.x)) if u is None else self.B.dot(u)
            phi, gam = self.cov.fine[self.mi]
            y = phi.dot(self.x) + (gam.dot(u) if u is not None else 0.0)

            # between the samples, the trajectory is a little off the line
            for z in (self.x, y):
                vel = self.A.dot(z) + force

                for r, v in zip(self.m['inv'], self.m['invr']):
                    if v - float(np.dot(r, z)) < SLACK + d * d / 4 * abs(float(np.dot(r, self.A.dot(vel)))):
                        self.alive = False

            self.x = y

        self.k += 1

class Track:
    'trajectories in one explored set'

    def __init__(self, state, mi, bodies):
        self.state, self.mi, self.bodies = state, mi, bodies
        self.k = -1

class Cover:
    'follows an analysis'

    def __init__(self, case, w):
        self.case, self.w = case, w
        self.rng = rng_for('c15', case['points'])
        self.names = [m['name'] for m in case['modes']]
        h = case['h']
        self.whole = [None if m['A'] is None else ref.zoh(m['A'], m['B'], h) for m in case['modes']]
        self.fine = [None if m['A'] is None else ref.zoh(m['A'], m['B'], h / SUB) for m in case['modes']]
        self.corners = []

        for m in case['modes']:
            if m['A'] is None or m['B'] is None:
                self.corners.append(None)
                continue

            u = ref.RefSet.constraints(m['Uc'], m['Ur'])
            n = len(m['B'][0])
            self.corners.append([u.point([self.rng.choice([-1.0, 1.0]) * self.rng.random() for _ in range(n)])
                                 for _ in range(4)] + [u.point([s if i == j else 0.0 for j in range(n)])
                                                       for i in range(n) for s in (1.0, -1.0)])

        self.when = self.rng.sample(range(1, SUB), 2)
        self.trans = {id(t): i for i, t in enumerate(w.ha.transitions)}
        self.cached = {}       # id(op) -> (op, points of the entered set)
        self.before = []
        self.track = None
        self.log = []
        self.stats = {'points': 0, 'states': 0, 'bodies': 0, 'crossings': 0}

    def points(self, lpi, count=4):
        'some points of a set'

        raw = ref.RawLP.copy_of(lpi)
        rv = []

        for _ in range(count):
            d = [self.rng.choice([-1.0, -0.5, 0.0, 0.5, 1.0]) for _ in range(lpi.dims)]
            st, _, x = raw.maximize(d, lpi.cur_vars_offset)

            if st == 'opt':
                rv.append(np.array(x[lpi.cur_vars_offset:lpi.cur_vars_offset + lpi.dims]))

        if len(rv) > 2:
            w = np.array([self.rng.random() for _ in rv])
            rv.append(np.array(rv).T.dot(w / w.sum()))

        return rv

    @staticmethod
    def contains(raw, offset, x):
        'is a point in the set?'

        from sim.ref import glpk
        tol = 2e-6 * (1 + np.abs(x).max())

        for i, v in enumerate(x):
            glpk.glp_set_col_bnds(raw.lp, offset + i + 1, glpk.GLP_DB, float(v) - tol, float(v) + tol)

        if raw.maximize([0.0])[0] != 'infeasible':
            return True

        # second opinion by another solver: how far away is it?
        for i in range(len(x)):
            glpk.glp_set_col_bnds(raw.lp, offset + i + 1, glpk.GLP_FR, 0, 0)

        G, g, E, e = raw.matrices()
        n = raw.n
        G = np.hstack([G, np.zeros((len(g), 1))])
        E = np.hstack([E, np.zeros((len(e), 1))])

        for i, v in enumerate(x):
            for sign in (1.0, -1.0):
                row = np.zeros((1, n + 1))
                row[0, offset + i], row[0, n] = sign, -1.0
                G, g = np.vstack([G, row]), np.append(g, sign * float(v))

        c = np.zeros(n + 1)
        c[n] = 1.0
        st, val, _ = ref.highs(G, g, E, e, c)

        return st != 'opt' or -val <= 5 * tol

    def each(self, core, when):
        'hook'

        from sim.monitor import MAX_COLS, MAX_SIZE
        from sim.util import TooLarge

        dag = core.aggdag
        s = dag.get_cur_state()

        if when == 'pre':
            self.before = list(dag.waiting_list)

            for op in self.before:
                self.cache(op, MAX_COLS)

            return

        new_ops = [op for op in dag.waiting_list if not any(op is b for b in self.before)]

        for op in new_ops:
            self.cache(op, MAX_COLS)

        t = self.track

        if t is not None and t.state.cur_step_in_mode > t.k and t.state is not s:
            # the set left the invariant in this step, after its guards were checked
            self.step(t, new_ops, core, None)

        if s is None:
            self.track = None
            return

        if s.lpi.get_num_cols() > MAX_COLS:
            raise TooLarge()

        if t is None or t.state is not s:
            self.track = t = self.entered(s, dag)

        raw = ref.RawLP.copy_of(s.lpi)
        mi = self.names.index(s.mode.name)

        for i in range(s.lpi.dims):
            st, val, _ = raw.maximize([1.0 if i == j else 0.0 for j in range(s.lpi.dims)], s.lpi.cur_vars_offset)
            if st != 'opt' or abs(val) > MAX_SIZE:
                raise TooLarge()

        k = int(s.cur_step_in_mode)
        lo, hi = int(s.cur_steps_since_start[0]) - k, int(s.cur_steps_since_start[1]) - k
        self.log.append((mi, lo, hi, k, raw, s.lpi.cur_vars_offset))
        self.stats['states'] += 1

        if t is not None and k > t.k:
            self.step(t, new_ops, core, s)

    def cache(self, op, max_cols):
        'points of a set when it is entered'

        from sim.util import TooLarge

        if id(op) not in self.cached:
            if op.poststate.lpi.get_num_cols() > max_cols:
                raise TooLarge()

            self.cached[id(op)] = (op, self.points(op.poststate.lpi))

    def entered(self, s, dag):
        'a set was taken from the waiting list'

        gone = [op for op in self.before if not any(op is b for b in dag.waiting_list)]
        pts = []

        if s.cur_step_in_mode == 0:
            for op in gone:
                pts += self.cached[id(op)][1]

        mi = self.names.index(s.mode.name)

        if not pts or self.case['modes'][mi]['A'] is None or dag.deagg_man.doing_replay():
            return None

        self.rng.shuffle(pts)
        self.stats['bodies'] += min(7, len(pts))

        return Track(s, mi, [Body(self, mi, x, self.rng) for x in pts[:7]])

    def step(self, t, new_ops, core, s):
        'check the set at its current step (s: None if it is already gone)'

        k = int(t.state.cur_step_in_mode)

        while t.k < k:
            t.k += 1

            for b in t.bodies:
                b.advance()

        raw = None if s is None else ref.RawLP.copy_of(s.lpi)

        for b in t.bodies:
            for x in b.samples:
                if np.abs(x).max() > 1000:
                    continue

                if raw is not None:
                    self.stats['points'] += 1

                    if not self.contains(raw, s.lpi.cur_vars_offset, x):
                        raise Violation('not-covered', f"mode '{self.names[t.mi]}', step {k} after entering: the set does not "
                                        f'contain {x.tolist()}, reached between steps {k} and {k + 1} by a trajectory of the '
                                        'entered set within the invariant')

                if (k > 0 or self.case['set']['urgent']) and not core.is_finished():
                    self.crossing(t, k, x, new_ops, core)

    def crossing(self, t, k, x, new_ops, core):
        'a state which enables a transition must be continued'

        for ti, tr in enumerate(self.case['trans']):
            if tr['from'] != t.mi or slack(tr['G'], tr['g'], x) < SLACK:
                continue

            to = self.case['modes'][tr['to']]

            if self.case['set']['strengthen'] and tr['R'] is None and slack(to['inv'], to['invr'], x) < SLACK:
                continue

            self.stats['crossings'] += 1

            if to['A'] is None:
                if not (core.result.has_aggregated_error or core.result.has_concrete_error):
                    raise Violation('error-missed', f"mode '{self.names[t.mi]}', step {k}: {x.tolist()} enables transition {ti} "
                                    'to an error mode, which is not reported')
                continue

            y = x if tr['R'] is None else np.array(tr['R'], dtype=float).dot(x)

            if tr['M'] is not None:
                w = ref.RefSet.constraints(tr['C'], tr['r']).point([1.0] * len(tr['M'][0]))
                y = y + np.array(tr['M'], dtype=float).dot(w)

            for op in new_ops:
                if op.transition is not None and self.trans.get(id(op.transition)) == ti:
                    lpi = op.poststate.lpi

                    if self.contains(ref.RawLP.copy_of(lpi), lpi.cur_vars_offset, y):
                        break
            else:
                raise Violation('transition-missed', f"mode '{self.names[t.mi]}', step {k}: {x.tolist()} enables transition "
                                f"{ti}, but no entered set contains {y.tolist()}")

    def lost(self, exact):
        'states of the plain analysis which no explored set contains'

        rng = rng_for('c15lost', self.case['points'])
        nodes = [n for n in exact.nodes if n.certain]
        checked = 0

        for n in rng.sample(nodes, min(15, len(nodes))):
            pt = n.ref.point([rng.choice([-1.0, -0.5, 0.0, 0.5, 1.0]) for _ in range(n.ref.dims)])

            if pt is None or np.abs(pt).max() > 1000:
                continue

            checked += 1

            for mode, lo, hi, k, raw, off in self.log:
                if mode == n.mode and k == n.k and lo + k <= n.total <= hi + k and self.contains(raw, off, pt):
                    break
            else:
                raise Violation('lost-state', f"state {[float(v) for v in pt]} is reachable in mode '{self.names[n.mode]}' at "
                                f'step {n.total} ({n.k} in the mode), but no explored set contains it')

        return checked

def run(case):
    'run a case'

    from sim import world
    from sim.refexplore import explore
    from sim.seams import SIM, running

    if not world.usable(case):
        raise Skip('empty guard or invariant')

    SIM.reset()
    faults.arm(case['faults'])

    with running():
        w = world.World(case)
        cov = Cover(case, w)

        if not w.setup():
            return {'nontrivial': False}

        done = w.drive(budget=80, each=cov.each, max_waiting=25)

    checked = 0

    if done:
        exact = explore(case, 80)
        res = w.core.result
        err = res.has_aggregated_error or res.has_concrete_error

        if exact.err_certain and not err:
            raise Violation('unsound', f'an error mode is reachable at step {exact.err_first}, but the analysis with the '
                            'approximation says safe')

        if not case['set']['skip0'] and not (err and (case['set']['stop_con'] or case['set']['stop_agg'])):
            checked = cov.lost(exact)

    return {'h': case['h'], 'sim_steps': cov.stats['states'], 'lp_calls': SIM.lp_calls, 'truncated': not done,
            'states_of_plain_analysis': checked, 'sched': w.sched.trace, 'stats': cov.stats,
            'nontrivial': cov.stats['points'] > 10}
