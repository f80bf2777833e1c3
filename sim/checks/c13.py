'''C13: a linear program answers from its constraints alone'''

import numpy as np

from sim import ref
from sim.util import Violation, rng_for

KINDS = (('solve', 10), ('feas', 4), ('rhs', 6), ('csr', 5), ('csc', 2), ('swig', 2), ('rows', 4), ('zero', 1), ('types', 3),
         ('cols', 2), ('dir', 4), ('clone', 4), ('drop', 2), ('read', 6), ('reset', 1), ('inter', 3), ('new', 1), ('gc', 1))

CODES = ['ESING', 'ECOND', 'EFAIL', 'EITLIM', 'ETMLIM', 'EBADB', 'EBOUND', 'EOBJLL', 'EOBJUL', 'ENODFS']

# GLPK 5.0 has a failing assertion (bflib/sgf.c: k1 < k2) for some structurally singular bases
SOLVER_ABORTS = True

def generate(rng, tier):
    'a case'

    ops = []
    names = [k for k, w in KINDS for _ in range(w)]
    faulty = rng.random() < 0.6

    for _ in range(rng.randint(8, 60 if tier == 'quick' else 150)):
        op = {'op': rng.choice(names), 'r': rng.randrange(10**6)}

        if op['op'] in ('solve', 'feas', 'inter') and faulty and rng.random() < 0.35:
            kind = rng.choice(['code', 'code', 'basis', 'burst', 'status', 'nofeas'])
            op['fault'] = {'kind': kind, 'code': rng.choice(CODES), 'n': rng.randint(2, 4),
                           'status': rng.choice(['UNDEF', 'FEAS', 'INFEAS'])}

        ops.append(op)

    return {'dims': rng.randint(1, 4), 'seed': rng.randrange(10**6), 'ops': ops, 'infeasible': rng.random() < 0.4}

class Model:
    'dense model of one problem'

    def __init__(self, dims, hidden):
        self.dims = dims
        self.hidden = hidden # function from column to a value; most constraints hold there
        self.mat = np.zeros((0, 0))
        self.types = []
        self.rhs = []
        self.names = []
        self.obj = {}

    def copy(self):
        'independent copy'

        rv = Model(self.dims, self.hidden)
        rv.mat = self.mat.copy()
        rv.types, rv.rhs, rv.names, rv.obj = self.types[:], self.rhs[:], self.names[:], dict(self.obj)
        return rv

    def point(self):
        'the hidden point'
        return np.array([self.hidden(c) for c in range(len(self.names))])

    def add_cols(self, names):
        'new columns'
        self.names += names
        self.mat = np.hstack([self.mat, np.zeros((self.mat.shape[0], len(names)))])

    def add_rows(self, types, rhs):
        'new rows'
        self.types += types
        self.rhs += [float(x) for x in rhs]
        self.mat = np.vstack([self.mat, np.zeros((len(types), len(self.names)))])

    def set_obj(self, offset, vec):
        'objective'
        self.obj = {offset + i: float(v) for i, v in enumerate(vec)}

    def parts(self):
        'G, g, E, e'

        G, g, E, e = [], [], [], []

        for row, t, r in zip(self.mat, self.types, self.rhs):
            if t == 'u':
                G.append(row)
                g.append(r)
            elif t == 'l':
                G.append(-row)
                g.append(-r)
            else:
                E.append(row)
                e.append(r)

        n = len(self.names)
        return np.array(G).reshape(len(g), n), np.array(g), np.array(E).reshape(len(e), n), np.array(e)

    def set(self):
        'as a set of assignments'
        n = len(self.names)
        G, g, E, e = self.parts()
        return ref.RefSet(G, g, E, e, np.eye(n), np.zeros(n))

    def cost(self):
        'objective as a vector'

        rv = np.zeros(len(self.names))

        for c, v in self.obj.items():
            rv[c] = v

        return rv

class Pair:
    'a real lpi and its model'

    def __init__(self, real, model):
        self.real = real
        self.model = model
        self.own = {}

    def vector(self, rng, vec):
        'the same values in a list or array, perhaps in an object which held other values before'

        kind = rng.choice(['list', 'array', 'same list', 'same array'])
        rv = list(vec) if 'list' in kind else np.array(vec, dtype=float)

        if 'same' in kind:
            same = self.own.setdefault((kind, len(vec)), rv)
            same[:] = rv
            rv = same

        return rv

COEF = [-2.0, -1.0, -0.5, 0.0, 0.0, 0.0, 0.5, 1.0, 1.0, 2.0, 3.0]

def row_rhs(rng, model, row, kind, wild):
    'right-hand side for a row'

    base = float(np.dot(row, model.point()[:len(row)])) if len(row) else 0.0

    if wild and rng.random() < 0.12:
        return round(base + rng.uniform(-2, 2), 2)
    if kind == 'f':
        return base

    slack = rng.choice([0.1, 0.5, 1.0, 2.0])
    return round(base + (slack if kind == 'u' else -slack), 3)

def make(dims, hidden, rng):
    'a real lpi with current-time variables, and its model'

    from scipy.sparse import csr_matrix

    from hylaa.lpinstance import LpInstance

    real = LpInstance()
    model = Model(dims, hidden)
    names = [f'i{k}' for k in range(dims)] + [f'c{k}' for k in range(dims)]
    real.add_rows_equal_zero(dims)
    real.add_cols(list(names))
    model.add_cols(list(names))
    model.add_rows(['f'] * dims, [0.0] * dims)
    bm = np.array([[rng.choice(COEF) for _ in range(dims)] for _ in range(dims)])
    mat = np.hstack([bm, -np.eye(dims)])
    real.set_constraints_csr(csr_matrix(mat, dtype=float))
    model.mat[:, :] = mat
    real.set_reach_vars(dims, (0, 0), dims, None)

    # current-time variables of the hidden point follow from the others
    model.rhs = [float(x) for x in mat.dot(model.point())]

    for i, v in enumerate(model.rhs):
        real.set_constraint_rhs(i, v)

    # bounds
    box = np.zeros((2 * dims, 2 * dims))
    rhs = []

    for i in range(dims):
        w = rng.choice([0.0, 0.5, 1.0, 3.0])
        box[2 * i, i] = 1
        box[2 * i + 1, i] = -1
        rhs += [hidden(i) + w, -hidden(i) + w]

    rhs = [round(x, 3) for x in rhs]
    real.add_rows_less_equal(np.array(rhs))
    real.set_constraints_csr(csr_matrix(box, dtype=float), offset=(dims, 0))
    model.add_rows(['u'] * len(rhs), rhs)
    model.mat[dims:, :] = box

    return Pair(real, model)

def arm(fault, required):
    'inject; returns True if the answer has to be right, False if an error may be raised instead'

    from sim.seams import SIM

    if not fault:
        return True

    at = SIM.lp_calls

    if fault['kind'] == 'code':
        SIM.lp_faults[at] = {'code': fault['code']}
        return True
    if fault['kind'] == 'basis':
        SIM.std_basis.add(at)
        return True
    if fault['kind'] == 'nofeas' and required:
        SIM.req_faults[SIM.req_calls] = 1
        return True
    if fault['kind'] == 'burst':
        for i in range(fault['n']):
            SIM.lp_faults[at + i] = {'code': fault['code']}
        return False
    if fault['kind'] == 'status':
        SIM.lp_faults[at] = {'status': fault['status']}
        return False

    return True

def disarm():
    'plans which were not used'

    from sim.seams import SIM

    SIM.lp_faults.clear()
    SIM.req_faults.clear()
    SIM.lp_status_override = None

def improving_ray(model, cost):
    '''is there a direction of unlimited improvement, if the constraints had a solution?

    (the dual simplex method then reports an undecided status, which is an error and not an answer)'''

    G, g, E, e = model.parts()
    return ref.highs(G, np.zeros(len(g)), E, np.zeros(len(e)), cost)[0] != 'opt'

def judge(out, model, columns, required, must, stats, what):
    '''compare an answer with the model; out: ('ok', value) or ('exc', exception)'''

    from hylaa.lpinstance import UnsatError

    kind, val = out
    stats['answers'] += 1

    if kind == 'exc' and not isinstance(val, RuntimeError):
        raise val

    s = model.set()
    feas = s.feasible(1e-6)

    if kind == 'exc' and not must and not isinstance(val, UnsatError):
        stats['reported'] += 1
        return

    cost = model.cost()

    if feas is False:
        if kind == 'ok' and val is not None:
            raise Violation('answer', f'{what}: an answer for constraints which have no solution')
        if kind == 'exc' and not isinstance(val, UnsatError) and improving_ray(model, cost):
            stats['unbounded'] += 1
            return
        if kind == 'exc' and not (required and isinstance(val, UnsatError)):
            raise Violation('answer', f'{what}: no solution exists, but the error was {type(val).__name__}: {val}')
        if kind == 'ok' and required:
            raise Violation('answer', f'{what}: no solution exists and one was required, but no error was raised')

        stats['infeasible'] += 1
        return

    G, g, E, e = model.parts()
    st, best, _ = ref.highs(G, g, E, e, cost)

    if feas is None:
        if kind == 'exc' or val is None:
            stats['dontcare'] += 1
            return
    elif kind == 'exc':
        if st == 'opt':
            raise Violation('answer', f'{what}: the optimum is {-best}, but the error was {type(val).__name__}: {val}')

        stats['unbounded'] += 1
        return
    elif val is None:
        raise Violation('answer', f'{what}: a solution exists, but the problem was called infeasible')

    if st in ('unbounded', 'infeasible') and feas is True:
        raise Violation('answer', f'{what}: an answer although the objective is unbounded')

    if st != 'opt':
        return

    stats['optimal'] += 1

    if columns is not None:
        # only some of the values are known: fix them and ask for the optimum
        if not len(columns):
            return

        rows = np.zeros((len(columns), len(model.names)))

        for i, c in enumerate(columns):
            rows[i, c] = 1.0

        tol = 1e-5 * (1 + np.abs(val).max())
        G2 = np.vstack([G, rows, -rows])
        g2 = np.concatenate([g + 1e-6, val + tol, tol - val])
        st2, v2, _ = ref.highs(G2, g2, E, e, cost)

        if st2 != 'opt' or -v2 > -best + 1e-3 * (1 + abs(best)):
            raise Violation('answer', f'{what}: columns {list(columns)} have values {list(val)}, which no optimal solution has')
        return

    tol = 1e-6 * (1 + np.abs(val).max())

    if len(g) and (G.dot(val) - g).max() > tol * (1 + np.abs(G).max()) or \
       len(e) and np.abs(E.dot(val) - e).max() > tol * (1 + np.abs(E).max()):
        raise Violation('answer', f'{what}: the answer {list(val)} does not satisfy the constraints')

    got = float(cost.dot(val))

    if abs(got + best) > 1e-5 * (1 + abs(best)):
        raise Violation('answer', f'{what}: objective {got}, but the optimum is {-best}')

def read_back(pair, rng, full, what):
    'compare what is read back'

    import swiglpk as glpk

    real, m = pair.real, pair.model
    rows, cols = m.mat.shape
    kinds = {'u': glpk.GLP_UP, 'l': glpk.GLP_LO, 'f': glpk.GLP_FX}

    def same(a, b, part):
        'arrays are equal'

        a, b = np.array(a, dtype=float), np.array(b, dtype=float)

        if a.shape != b.shape or not np.array_equal(a, b):
            raise Violation('read-back', f'{what}: {part} is {a.tolist()}, but was set to {b.tolist()}')

    if (real.get_num_rows(), real.get_num_cols()) != (rows, cols):
        raise Violation('read-back', f'{what}: size is {real.get_num_rows()}x{real.get_num_cols()}, not {rows}x{cols}')

    if full:
        same(real.get_full_constraints().toarray(), m.mat, 'the matrix')
        same(real.get_rhs(), m.rhs, 'the right-hand side')
        same(real.get_types(), [kinds[t] for t in m.types], 'the list of types')

        if list(real.get_names()) != m.names:
            raise Violation('read-back', f'{what}: names {real.get_names()}, expected {m.names}')

        str(real)
        return

    r = rng.randrange(rows)
    same(real.get_row(r).toarray()[0], m.mat[r], f'row {r}')
    idx = [rng.randrange(rows) for _ in range(rng.randint(1, 4))]
    same(real.get_rhs(idx), [m.rhs[i] for i in idx], f'right-hand side of rows {idx}')
    x, y = rng.randrange(cols), rng.randrange(rows)
    w, h = rng.randint(1, cols - x), rng.randint(1, rows - y)
    same(real.get_dense_constraints(x, y, w, h), m.mat[y:y + h, x:x + w], f'block {x, y, w, h}')

def apply(op, pairs, case, stats):
    'one operation'

    import gc

    import swiglpk as glpk
    from scipy.sparse import csc_matrix, csr_matrix

    from hylaa import lputil
    from hylaa.hybrid_automaton import LinearConstraint
    from hylaa.lpinstance import LpInstance, SwigArray

    rng = rng_for('c13', op['r'])
    kind = op['op']
    index = rng.randrange(len(pairs))
    p = pairs[index]
    real, m = p.real, p.model
    rows, cols = m.mat.shape
    wild = case['infeasible']
    what = f'{kind} on problem {index}'
    kinds = {'u': glpk.GLP_UP, 'l': glpk.GLP_LO, 'f': glpk.GLP_FX}

    def attempt(func):
        'result or exception'
        try:
            return 'ok', func()
        except Exception as e: # pylint: disable=broad-except
            return 'exc', e
        finally:
            disarm()

    if kind == 'new' and len(pairs) < 4:
        pairs.append(make(case['dims'], p.model.hidden, rng))
    elif kind == 'clone' and len(pairs) < 5:
        pairs.append(Pair(real.clone(), m.copy()))
    elif kind == 'drop' and len(pairs) > 1:
        del pairs[index]
    elif kind == 'gc':
        gc.collect()
    elif kind == 'reset':
        real.reset_lp()
    elif kind == 'cols' and cols < 14:
        names = [f'x{cols + k}' for k in range(rng.randint(1, 3))]
        real.add_cols(list(names))
        m.add_cols(list(names))
    elif kind in ('rows', 'zero', 'types') and rows < 26:
        n = rng.randint(1, 3)
        mat = np.array([[rng.choice(COEF) for _ in range(cols)] for _ in range(n)])

        if kind == 'rows':
            types = ['u'] * n
        elif kind == 'zero':
            types = ['f'] * n
        else:
            types = [rng.choice('uulf') for _ in range(n)]

        rhs = [row_rhs(rng, m, row, t, wild) for row, t in zip(mat, types)]

        if kind == 'zero':
            rhs = [0.0] * n
            mat[:, :] = 0.0

            if cols > 2 * case['dims']:
                mat[0, cols - 1] = 1.0 # the others stay empty

                if not wild:
                    mat[0, cols - 1] = 0.0

            real.add_rows_equal_zero(n)
        elif kind == 'rows':
            real.add_rows_less_equal(np.array(rhs) if rng.random() < 0.5 else list(rhs))
        else:
            real.add_rows_with_types([kinds[t] for t in types], list(rhs) if rng.random() < 0.5 else np.array(rhs))

        if rng.random() < 0.2: # solve while the new rows are empty
            m.add_rows(types, rhs)
            out = attempt(lambda: real.minimize(columns=[], fail_on_unsat=False))
            judge(out, m, [], False, True, stats, what + ' (empty rows)')
            real.set_constraints_csr(csr_matrix(mat), offset=(rows, 0))
        else:
            real.set_constraints_csr(csr_matrix(mat), offset=(rows, 0))
            m.add_rows(types, rhs)

        m.mat[rows:, :] = mat
    elif kind == 'rhs':
        for _ in range(rng.randint(1, 3)):
            r = rng.randrange(rows)
            val = row_rhs(rng, m, m.mat[r], m.types[r], wild)
            real.set_constraint_rhs(r, val)
            m.rhs[r] = float(val)
    elif kind in ('csr', 'swig'):
        n = rng.randint(1, min(3, rows))
        start = rng.randint(0, rows - n)
        off = rng.choice([0, 0, rng.randrange(cols)])
        width = rng.randint(1, cols - off)
        block = np.array([[rng.choice(COEF) for _ in range(width)] for _ in range(n)])
        csr = csr_matrix(block)

        if kind == 'csr':
            real.set_constraints_csr(csr, offset=(start, off))
        else:
            data, inds, counts = [], [], []

            for r in range(n):
                lo, hi = csr.indptr[r], csr.indptr[r + 1]
                data.append(SwigArray.as_double_array(csr.data[lo:hi].tolist()))
                inds.append(SwigArray.as_int_array([1 + off + int(x) for x in csr.indices[lo:hi]]))
                counts.append(int(hi - lo))

            real.set_constraints_swigvec_rows(data, inds, counts, start)

        m.mat[start:start + n, :] = 0.0 # whole rows are replaced
        m.mat[start:start + n, off:off + width] = block

        for r in range(start, start + n): # keep it feasible
            val = row_rhs(rng, m, m.mat[r], m.types[r], wild)
            real.set_constraint_rhs(r, val)
            m.rhs[r] = float(val)
    elif kind == 'csc':
        n = rng.randint(1, min(2, cols))
        start = rng.randint(0, cols - n)
        off = rng.choice([0, rng.randrange(rows)])
        height = rng.randint(1, rows - off)
        block = np.array([[rng.choice(COEF) for _ in range(n)] for _ in range(height)])
        real.set_constraints_csc(csc_matrix(block), offset=(off, start))
        m.mat[:, start:start + n] = 0.0 # whole columns are replaced
        m.mat[off:off + height, start:start + n] = block

        for r in range(rows):
            val = row_rhs(rng, m, m.mat[r], m.types[r], wild)
            real.set_constraint_rhs(r, val)
            m.rhs[r] = float(val)
    elif kind == 'dir':
        set_direction(rng, p)
    elif kind == 'feas':
        must = arm(op.get('fault'), False)
        out = attempt(real.is_feasible)

        if out == ('ok', False):
            out = ('ok', None)
        elif out[0] == 'ok':
            out = ('ok', np.zeros(0))

        judge(out, m, [], False, must, stats, what)
    elif kind == 'solve':
        required = rng.random() < 0.5
        columns = None

        if rng.random() < 0.4:
            columns = [rng.randrange(cols) for _ in range(rng.randint(1, 3))]

        direction = None

        if rng.random() < 0.5:
            direction = [rng.choice([-1.0, 0.0, 0.5, 1.0]) for _ in range(rng.randint(1, case['dims']))]
            m.set_obj(case['dims'], direction)

        must = arm(op.get('fault'), required)
        vec = None if direction is None else p.vector(rng, direction)
        out = attempt(lambda: real.minimize(vec, columns=columns, fail_on_unsat=required))
        judge(out, m, columns, required, must, stats, what)
    elif kind == 'inter':
        vec = np.array([rng.choice([-1.0, 0.0, 0.5, 1.0]) for _ in range(case['dims'])])
        full = np.zeros(cols)
        full[case['dims']:2 * case['dims']] = vec
        val = round(float(full.dot(m.point())) + rng.uniform(-2, 2), 2)
        m.set_obj(case['dims'], vec)
        must = arm(op.get('fault'), False)
        out = attempt(lambda: lputil.check_intersection(real, LinearConstraint(vec, val)))

        if out[0] == 'ok':
            judge_intersection(out[1], m, full, val, stats, what)
        else:
            judge(out, m, [], False, must, stats, what)
    elif kind == 'read':
        read_back(p, rng, rng.random() < 0.5, what)

    del LpInstance

def set_direction(rng, p):
    'set a direction'

    from scipy.sparse import csr_matrix

    real, m = p.real, p.model

    if rng.random() < 0.5:
        vec = [rng.choice([-1.0, 0.0, 0.5, 1.0]) for _ in range(rng.randint(1, m.dims))]
        real.set_minimize_direction(p.vector(rng, vec))
        m.set_obj(m.dims, vec)
        return

    off = rng.randrange(len(m.names))
    vec = [rng.choice([-1.0, 0.0, 0.5, 1.0]) for _ in range(rng.randint(1, len(m.names) - off))]
    real.set_minimize_direction(csr_matrix([vec], dtype=float), is_csr=True, offset=off)
    m.set_obj(off, vec)

def judge_intersection(val, model, full, rhs, stats, what):
    'check_intersection: None if there is no solution, otherwise whether some solution satisfies the condition'

    s = model.set()
    feas = s.feasible(1e-6)
    stats['answers'] += 1

    if feas is None or val is None and feas is False:
        return
    if val is None or feas is False:
        raise Violation('answer', f'{what}: intersection {val}, but the problem has {"a" if feas else "no"} solution')

    best = s.support(-full)
    best = None if best is None else -best

    if best is None or abs(best - rhs) < 1e-5:
        return

    if bool(val) != (best < rhs):
        raise Violation('answer', f'{what}: intersection {val}, but the minimum is {best} and the limit {rhs}')

def run(case):
    'run a case'

    import collections

    from sim.seams import SIM, running

    SIM.reset()
    stats = collections.Counter()
    hid = rng_for('c13-hidden', case['seed'])
    values = [round(hid.uniform(-2, 2), 1) for _ in range(64)]

    with running():
        pairs = [make(case['dims'], lambda c: values[c % 64], rng_for('c13-make', case['seed']))]

        for i, op in enumerate(case['ops']):
            apply(op, pairs, case, stats)

            if i % 7 == 6:
                for j, p in enumerate(pairs):
                    read_back(p, rng_for('c13-read', i, j), False, f'problem {j} after operation {i}')

        rng = rng_for('c13-end', case['seed'])

        for j, p in enumerate(pairs):
            read_back(p, rng, True, f'problem {j} at the end')
            p.model.set_obj(case['dims'], [1.0])

            try:
                out = 'ok', p.real.minimize([1.0], fail_on_unsat=False)
            except RuntimeError as e:
                out = 'exc', e

            judge(out, p.model, None, False, True, stats, f'problem {j} at the end')

    return {'stats': dict(stats), 'sim_steps': len(case['ops']), 'lp_calls': SIM.lp_calls,
            'sched': [op['op'] for op in case['ops']], 'nontrivial': stats['answers'] > 2 and bool(stats['optimal'])}

def shrinks(case):
    'simpler cases'

    import copy

    from sim.shrink import generic

    yield from generic(case)

    for i, op in enumerate(case['ops']):
        if 'fault' in op:
            rv = copy.deepcopy(case)
            del rv['ops'][i]['fault']
            yield rv
