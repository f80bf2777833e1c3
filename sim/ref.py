'''
Reference model: sets of states as {M p + m : G p <= g, E p = e}, dense matrices, its own matrix exponential and its own
LPs. Shares no code with hylaa.
'''

import numpy as np
import swiglpk as glpk
from scipy.optimize import linprog

from sim import doubt

_simplex = glpk.glp_simplex
_get_status = glpk.glp_get_status

DELTA = 1e-6   # slack within which a decision may go either way
TOL = 1e-5     # accepted error of a support value (relative to 1 + |value|)

def expm(mat):
    'matrix exponential: scaling and squaring with a taylor series, in extended precision'

    a = np.array(mat, dtype=np.longdouble)
    norm = float(np.abs(a).sum(axis=1).max()) if a.size else 0.0
    squarings = max(0, int(np.ceil(np.log2(max(norm, 1e-30)))) + 4)
    a = a / np.longdouble(2) ** squarings
    rv = np.eye(a.shape[0], dtype=np.longdouble)
    term = rv.copy()

    for k in range(1, 24):
        term = term.dot(a) / k
        rv = rv + term

    for _ in range(squarings):
        rv = rv.dot(rv)

    return rv.astype(float)

def zoh(a, b, h):
    'one-step matrices (Phi, Gamma) for x\' = a x + b u with u held constant'

    a = np.atleast_2d(np.array(a, dtype=float))
    n = a.shape[0]

    if b is None:
        return expm(a * h), None

    b = np.array(b, dtype=float).reshape(n, -1)
    m = b.shape[1]
    aug = np.zeros((n + m, n + m))
    aug[:n, :n] = a
    aug[:n, n:] = b
    big = expm(aug * h)

    return big[:n, :n], big[:n, n:]

_PARM = glpk.glp_smcp()
glpk.glp_init_smcp(_PARM)
_PARM.it_lim = 20000 # (it may cycle)
_PARM.msg_lev = glpk.GLP_MSG_OFF
_PARM.meth = glpk.GLP_PRIMAL

_PRE = glpk.glp_smcp()
glpk.glp_init_smcp(_PRE)
_PRE.it_lim = 20000
_PRE.msg_lev = glpk.GLP_MSG_OFF
_PRE.presolve = glpk.GLP_ON

class RawLP:
    'thin wrapper over a GLPK problem object used only by the reference'

    def __init__(self, prob):
        self.lp = prob
        self.n = glpk.glp_get_num_cols(prob)
        self.obj = []

    def __del__(self):
        if getattr(self, 'lp', None) is not None:
            glpk.glp_delete_prob(self.lp)
            self.lp = None

    @staticmethod
    def build(G, g, E, e, n):
        'make the LP'

        lp = glpk.glp_create_prob()
        rows = len(g) + len(e)

        if rows:
            glpk.glp_add_rows(lp, rows)

        glpk.glp_add_cols(lp, max(n, 1))

        for c in range(max(n, 1)):
            glpk.glp_set_col_bnds(lp, c + 1, glpk.GLP_FR, 0, 0)

        ia, ja, va = [], [], []

        for i, rhs in enumerate(g):
            glpk.glp_set_row_bnds(lp, i + 1, glpk.GLP_UP, 0, float(rhs))

        for i, rhs in enumerate(e):
            glpk.glp_set_row_bnds(lp, len(g) + i + 1, glpk.GLP_FX, float(rhs), float(rhs))

        mats = []

        if len(g):
            mats.append(np.asarray(G, dtype=float).reshape(len(g), -1))
        if len(e):
            mats.append(np.asarray(E, dtype=float).reshape(len(e), -1))

        if mats:
            mat = np.vstack(mats)
            ia, ja = np.nonzero(mat)
            va = mat[ia, ja]
            k = len(va)
            iarr, jarr, varr = glpk.intArray(k + 1), glpk.intArray(k + 1), glpk.doubleArray(k + 1)

            for t, (i, j, v) in enumerate(zip(ia.tolist(), ja.tolist(), va.tolist())):
                iarr[t + 1] = i + 1
                jarr[t + 1] = j + 1
                varr[t + 1] = v

            glpk.glp_load_matrix(lp, k, iarr, jarr, varr)

        return RawLP(lp)

    @staticmethod
    def copy_of(lpi):
        'raw copy of a hylaa lpi (no use of its methods besides the problem object)'

        lp = glpk.glp_create_prob()
        glpk.glp_copy_prob(lp, lpi.lp, glpk.GLP_OFF)
        return RawLP(lp)

    def matrices(self):
        'return (G, g, E, e) dense'

        rows, cols = glpk.glp_get_num_rows(self.lp), self.n
        ind, val = glpk.intArray(cols + 1), glpk.doubleArray(cols + 1)
        G, g, E, e = [], [], [], []

        for r in range(1, rows + 1):
            row = np.zeros(cols)

            for i in range(1, glpk.glp_get_mat_row(self.lp, r, ind, val) + 1):
                row[ind[i] - 1] = val[i]

            t = glpk.glp_get_row_type(self.lp, r)

            if t == glpk.GLP_UP:
                G.append(row)
                g.append(glpk.glp_get_row_ub(self.lp, r))
            elif t == glpk.GLP_LO:
                G.append(-row)
                g.append(-glpk.glp_get_row_lb(self.lp, r))
            elif t == glpk.GLP_FX:
                E.append(row)
                e.append(glpk.glp_get_row_ub(self.lp, r))
            elif t == glpk.GLP_DB:
                G.append(row)
                g.append(glpk.glp_get_row_ub(self.lp, r))
                G.append(-row)
                g.append(-glpk.glp_get_row_lb(self.lp, r))

        G = np.array(G).reshape(len(g), cols)
        E = np.array(E).reshape(len(e), cols)

        return G, np.array(g, dtype=float), E, np.array(e, dtype=float)

    def maximize(self, vec, offset=0):
        '''maximize vec over the columns from offset

        returns (status, value, x) with status in 'opt', 'infeasible', 'unbounded'
        '''

        lp = self.lp
        glpk.glp_set_obj_dir(lp, glpk.GLP_MAX)

        for c in range(0, self.n + 1):
            glpk.glp_set_obj_coef(lp, c, 0.0)

        for i, v in enumerate(vec):
            glpk.glp_set_obj_coef(lp, 1 + offset + i, float(v))

        for attempt in range(3):
            if attempt == 0:
                res = _simplex(lp, _PARM)
            elif attempt == 1:
                glpk.glp_std_basis(lp)
                res = _simplex(lp, _PARM)
            else:
                glpk.glp_adv_basis(lp, 0)
                res = _simplex(lp, _PRE)

                if res == glpk.GLP_ENOPFS:
                    return 'infeasible', None, None

            if res != 0:
                continue

            st = _get_status(lp)

            if doubt.active():
                doubt.check(lp)

            if st == glpk.GLP_OPT:
                x = np.array([glpk.glp_get_col_prim(lp, c + 1) for c in range(self.n)])
                return 'opt', float(np.dot(vec, x[offset:offset + len(vec)])), x

            if st == glpk.GLP_NOFEAS:
                return 'infeasible', None, None

            if st == glpk.GLP_UNBND:
                return 'unbounded', None, None

        return self.highs(vec, offset)

    def highs(self, vec, offset=0):
        'second opinion from another solver'

        G, g, E, e = self.matrices()
        c = np.zeros(self.n)
        c[offset:offset + len(vec)] = -np.array(vec, dtype=float)
        return highs(G, g, E, e, c)

def highs(G, g, E, e, c):
    'minimize c with HiGHS; returns (status, -value, x)'

    n = len(c)
    res = linprog(c, A_ub=G if len(g) else None, b_ub=g if len(g) else None, A_eq=E if len(e) else None,
                  b_eq=e if len(e) else None, bounds=[(None, None)] * n, method='highs')

    if res.status == 0:
        return 'opt', float(-res.fun), res.x
    if res.status == 2:
        return 'infeasible', None, None
    if res.status == 3:
        return 'unbounded', None, None

    return 'unknown', None, None

def split_equalities(G, g):
    'turn pairs of opposite inequalities with the same bound into equalities'

    G = [np.array(r, dtype=float) for r in G]
    g = [float(v) for v in g]
    used = [False] * len(g)
    Gi, gi, Ei, ei = [], [], [], []

    for i, row in enumerate(G):
        if used[i]:
            continue

        for j in range(i + 1, len(G)):
            if not used[j] and np.array_equal(row, -G[j]) and g[i] == -g[j]:
                used[i] = used[j] = True
                Ei.append(row)
                ei.append(g[i])
                break

        if not used[i]:
            Gi.append(row)
            gi.append(g[i])

    return Gi, gi, Ei, ei

class RefSet:
    'immutable set of states {M p + m : G p <= g, E p = e}'

    def __init__(self, G, g, E, e, M, m, soft=None, cut=()):
        # cut: indices of equalities that came from intersections
        self.cut = tuple(cut)
        self.M = np.array(M, dtype=float)
        n = self.M.shape[1]
        self.G = np.array(G, dtype=float).reshape(len(g), n)
        self.g = np.array(g, dtype=float)
        self.E = np.array(E, dtype=float).reshape(len(e), n)
        self.e = np.array(e, dtype=float)
        self.m = np.array(m, dtype=float)
        # per-row extra slack (time-triggered relaxation)
        self.soft = np.zeros(len(self.g)) if soft is None else np.array(soft, dtype=float)
        self._cache = {}

    @property
    def dims(self):
        'number of state variables'
        return self.M.shape[0]

    @staticmethod
    def constraints(A, b):
        'set given by A x <= b'

        A = np.array(A, dtype=float)
        Gi, gi, Ei, ei = split_equalities(A, b)
        n = A.shape[1]
        return RefSet(Gi, gi, Ei, ei, np.eye(n), np.zeros(n))

    @staticmethod
    def box(bounds):
        'axis-aligned box'

        A, b = [], []
        n = len(bounds)

        for i, (lo, hi) in enumerate(bounds):
            row = np.zeros(n)
            row[i] = 1
            A.append(row)
            b.append(hi)
            A.append(-row)
            b.append(-lo)

        return RefSet.constraints(A, b)

    @staticmethod
    def zonotope(center, gens):
        'zonotope'

        center = np.array(center, dtype=float)
        k = len(gens)
        M = np.array(gens, dtype=float).T.reshape(len(center), k) if k else np.zeros((len(center), 0))
        G = np.vstack([np.eye(k), -np.eye(k)]) if k else np.zeros((0, 0))

        if k == 0:
            M, G, g = np.zeros((len(center), 1)), np.array([[1.0], [-1.0]]), [1, 1]
        else:
            g = [1] * (2 * k)

        return RefSet(G, g, [], [], M, center)

    @staticmethod
    def snapshot(lpi):
        'the set a real hylaa lpi stands for at this moment'

        raw = RawLP.copy_of(lpi)
        G, g, E, e = raw.matrices()
        M = np.zeros((lpi.dims, raw.n))

        for i in range(lpi.dims):
            M[i, lpi.cur_vars_offset + i] = 1.0

        return RefSet(G, g, E, e, M, np.zeros(lpi.dims))

    def _grow(self, extra):
        'matrices with extra zero columns'

        pad = lambda mat: np.hstack([mat, np.zeros((mat.shape[0], extra))])
        return pad(self.G), pad(self.E), pad(self.M)

    def step(self, phi, gamma=None, Uc=None, Ur=None):
        'one time step'

        if gamma is None:
            return RefSet(self.G, self.g, self.E, self.e, phi.dot(self.M), phi.dot(self.m), self.soft,
                          self.cut)

        k = gamma.shape[1]
        n = self.M.shape[1]
        G, E, M = self._grow(k)
        Gi, gi, Ei, ei = split_equalities(Uc, Ur)
        off = lambda rows: np.hstack([np.zeros((len(rows), n)), np.array(rows, dtype=float).reshape(len(rows), k)])
        M = phi.dot(M)
        M[:, n:] = gamma

        return RefSet(np.vstack([G, off(Gi)]), np.concatenate([self.g, gi]), np.vstack([E, off(Ei)]),
                      np.concatenate([self.e, ei]), M, phi.dot(self.m), np.concatenate([self.soft, np.zeros(len(gi))]),
                      self.cut)

    def intersect(self, C, c, soft=None):
        'intersect with C x <= c; soft: extra slack of these rows'

        if len(c) == 0:
            return self

        C = np.array(C, dtype=float).reshape(len(c), self.dims)

        if soft is None:
            Gi, gi, Ei, ei = split_equalities(C, c)
            so = np.zeros(len(gi))
        else:
            Gi, gi, Ei, ei, so = list(C), list(c), [], [], np.array(soft, dtype=float)

        Gi = np.array(Gi, dtype=float).reshape(len(gi), self.dims)
        Ei = np.array(Ei, dtype=float).reshape(len(ei), self.dims)

        return RefSet(np.vstack([self.G, Gi.dot(self.M)]), np.concatenate([self.g, np.array(gi) - Gi.dot(self.m)]),
                      np.vstack([self.E, Ei.dot(self.M)]), np.concatenate([self.e, np.array(ei) - Ei.dot(self.m)]),
                      self.M, self.m, np.concatenate([self.soft, so]),
                      self.cut + tuple(range(len(self.e), len(self.e) + len(ei))))

    def reset(self, R=None, Mk=None, C=None, r=None):
        'affine reset with extra variables'

        R = np.eye(self.dims) if R is None else np.array(R, dtype=float)

        if Mk is None:
            return RefSet(self.G, self.g, self.E, self.e, R.dot(self.M), R.dot(self.m), self.soft,
                          self.cut)

        Mk = np.array(Mk, dtype=float)
        return RefSet(self.G, self.g, self.E, self.e, R.dot(self.M), R.dot(self.m), self.soft,
                      self.cut).step(
            np.eye(R.shape[0]), Mk, C, r)

    def _lp(self, shift):
        'LP with every inequality moved by shift (positive: larger set)'

        if shift not in self._cache:
            n = self.M.shape[1]

            if shift > 0:
                G = np.vstack([self.G, self.E, -self.E])
                g = np.concatenate([self.g + shift + self.soft, self.e + shift, -self.e + shift])
                self._cache[shift] = RawLP.build(G, g, np.zeros((0, n)), [], n)
            else:
                g = self.g + shift if shift < 0 else self.g
                self._cache[shift] = RawLP.build(self.G, g + 0.5 * self.soft, self.E, self.e, n)

        return self._cache[shift]

    def feasible(self, delta=DELTA):
        '''True (certainly non-empty), False (certainly empty) or None (too close to call)'''

        if self._lp(-delta).maximize([0.0])[0] == 'opt':
            # an equality which merely touches a flat set is also too close to call
            for i in self.cut:
                for s in (delta, -delta):
                    e = self.e.copy()
                    e[i] += s

                    if RawLP.build(self.G, self.g - delta + 0.5 * self.soft, self.E, e,
                                   self.M.shape[1]).maximize([0.0])[0] != 'opt':
                        return None

            return True

        if self._lp(delta).maximize([0.0])[0] == 'infeasible':
            return False

        return None

    def support(self, d, shift=0.0):
        'max of d x, None if empty'

        d = np.array(d, dtype=float)
        st, val, _ = self._lp(shift).maximize(d.dot(self.M))

        if st != 'opt':
            return None if st == 'infeasible' else float('inf')

        return val + float(d.dot(self.m))

    def point(self, d):
        'a state maximizing d, None if empty'

        d = np.array(d, dtype=float)
        st, _, x = self._lp(0.0).maximize(d.dot(self.M))
        return None if st != 'opt' else self.M.dot(x[:self.M.shape[1]]) + self.m

    def contains(self, pt, delta=DELTA):
        'is the point in the set (relaxed by delta)?'

        C = np.vstack([np.eye(self.dims), -np.eye(self.dims)])
        c = np.concatenate([pt, -np.array(pt)])
        both = RefSet(np.vstack([self.G, C.dot(self.M)]), np.concatenate([self.g, c - C.dot(self.m)]), self.E, self.e,
                      self.M, self.m, np.concatenate([self.soft, np.zeros(len(c))]))
        st = both._lp(delta).maximize([0.0])[0]

        if st == 'infeasible': # second opinion
            lp = both._lp(delta)
            st = lp.highs([0.0])[0]

        return st != 'infeasible'

def hull(sets):
    'convex hull of bounded RefSets'

    n = sum(s.M.shape[1] for s in sets)
    k = len(sets)
    dims = sets[0].dims
    G, g, E, e = [], [], [], []
    M = np.zeros((dims, n + k))
    col = 0

    for i, s in enumerate(sets):
        w = s.M.shape[1]

        for mat, vec, rows, rhs in ((s.G, s.g + s.soft, G, g), (s.E, s.e, E, e)):
            for row, b in zip(mat, vec):
                r = np.zeros(n + k)
                r[col:col + w] = row
                r[n + i] = -b
                rows.append(r)
                rhs.append(0.0)

        M[:, col:col + w] = s.M
        M[:, n + i] = s.m
        r = np.zeros(n + k)
        r[n + i] = -1
        G.append(r)
        g.append(0.0)
        col += w

    r = np.zeros(n + k)
    r[n:] = 1
    E.append(r)
    e.append(1.0)

    return RefSet(np.array(G), g, np.array(E), e, M, np.zeros(dims))

def real_support(lpi, d, raw=None):
    'max of d over the current variables of a hylaa lpi, on a raw copy; None if infeasible'

    raw = RawLP.copy_of(lpi) if raw is None else raw
    st, val, _ = raw.maximize(list(d), lpi.cur_vars_offset)

    if st == 'opt':
        return val

    return None if st == 'infeasible' else float('inf')
