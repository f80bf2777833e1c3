'''
Second opinion on the real solver. GLPK itself sometimes gives a wrong optimum (its dual simplex after a perturbation, on
problems of some hundred rows): not the fault of the code which asked. When a run violates a property it is therefore
repeated with every answer of the solver checked by solving the same problem again from scratch with the primal method; if
an answer was really wrong, the run says nothing and is skipped.

The memory is shared with forked children and the twin process.
'''

import mmap
import os

import swiglpk as glpk

_real_simplex = glpk.glp_simplex
_real_status = glpk.glp_get_status

ENV = 'SIM_DOUBT_FD'

def _open():
    'shared memory: [checking is on, a wrong answer was seen]'

    fd = int(os.environ[ENV]) if ENV in os.environ else os.memfd_create('doubt', 0)

    if ENV not in os.environ:
        os.ftruncate(fd, 4096)

    return fd, mmap.mmap(fd, 4096)

FD, MEM = _open()

def start():
    'check from now on'
    MEM[0:2] = b'\x01\x00'

def stop():
    'no longer; returns True if there was a wrong answer'

    rv = MEM[1] == 1
    MEM[0:2] = b'\x00\x00'
    return rv

def active():
    'are answers to be checked?'
    return MEM[0] == 1

_PRIMAL = glpk.glp_smcp()
glpk.glp_init_smcp(_PRIMAL)
_PRIMAL.msg_lev = glpk.GLP_MSG_OFF
_PRIMAL.meth = glpk.GLP_PRIMAL
_PRIMAL.it_lim = 50000

_DUAL = glpk.glp_smcp()
glpk.glp_init_smcp(_DUAL)
_DUAL.msg_lev = glpk.GLP_MSG_OFF
_DUAL.meth = glpk.GLP_DUALP
_DUAL.it_lim = 50000

def check_failure(lp):
    'the solver ended without an answer: can it answer at all, although there is an answer (for instance with huge numbers)?'

    from sim import ref

    other = glpk.glp_create_prob()
    glpk.glp_copy_prob(other, lp, glpk.GLP_OFF)
    raw = ref.RawLP(other)
    glpk.glp_std_basis(other)

    if _real_simplex(other, _DUAL) == 0 and _real_status(other) in (glpk.GLP_OPT, glpk.GLP_NOFEAS):
        return

    sign = -1.0 if glpk.glp_get_obj_dir(lp) == glpk.GLP_MIN else 1.0
    vec = [sign * glpk.glp_get_obj_coef(lp, c + 1) for c in range(raw.n)]

    if raw.highs(vec)[0] in ('opt', 'infeasible'):
        MEM[1] = 1

def check(lp):
    'check the answer which the solver just gave (a call which returned 0)'

    st = _real_status(lp)

    if st not in (glpk.GLP_OPT, glpk.GLP_NOFEAS):
        check_failure(lp)
        return

    obj = glpk.glp_get_obj_val(lp)
    other = glpk.glp_create_prob()
    glpk.glp_copy_prob(other, lp, glpk.GLP_OFF)

    try:
        if st == glpk.GLP_NOFEAS:
            # infeasible although there is room?
            for r in range(1, glpk.glp_get_num_rows(other) + 1):
                t, lo, hi = glpk.glp_get_row_type(other, r), glpk.glp_get_row_lb(other, r), glpk.glp_get_row_ub(other, r)

                if t in (glpk.GLP_UP, glpk.GLP_LO):
                    glpk.glp_set_row_bnds(other, r, t, lo + 1e-5, hi - 1e-5)

        glpk.glp_std_basis(other)

        if _real_simplex(other, _PRIMAL) != 0 or _real_status(other) != glpk.GLP_OPT:
            return

        if st == glpk.GLP_NOFEAS or abs(glpk.glp_get_obj_val(other) - obj) > 1e-4 * (1 + abs(obj)):
            MEM[1] = 1
    finally:
        glpk.glp_delete_prob(other)
