'''
Simulated seams: everything the analysis takes from its surroundings goes through here.

- the LP solver (swiglpk.glp_simplex / glp_get_status): return codes, statuses, lost bases, interruptions
- the clock (time.perf_counter / time.time / time.monotonic / time.sleep)
- the output stream (sys.stdout)
- the display and the files it writes (FuncAnimation, plt.show, plt.savefig, video writer, graphviz)
- asynchronous interruptions at function calls, memory layout, garbage collection, random generators

install() must be called before hylaa is imported. Everything is off (pass-through) unless a World arms it.
'''

import gc
import os
import random
import sys
import time as _time

import numpy as np
import swiglpk as glpk

from sim import doubt, ref # keep the original solver functions
from sim.util import REPO, HarnessError, TooLarge

_real_simplex = ref._simplex
_real_status = ref._get_status

MAX_COLS = 2500 # larger problems are not worth their time

LP_CODES = {'EBADB': glpk.GLP_EBADB, 'ESING': glpk.GLP_ESING, 'ECOND': glpk.GLP_ECOND, 'EFAIL': glpk.GLP_EFAIL,
            'EITLIM': glpk.GLP_EITLIM, 'ETMLIM': glpk.GLP_ETMLIM, 'EBOUND': glpk.GLP_EBOUND, 'EOBJLL': glpk.GLP_EOBJLL,
            'EOBJUL': glpk.GLP_EOBJUL, 'ENODFS': glpk.GLP_ENODFS}
LP_STATUS = {'NOFEAS': glpk.GLP_NOFEAS, 'UNDEF': glpk.GLP_UNDEF, 'FEAS': glpk.GLP_FEAS, 'INFEAS': glpk.GLP_INFEAS,
             'UNBND': glpk.GLP_UNBND}

EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'OSError': OSError,
       'BrokenPipeError': BrokenPipeError}

class Stuck(Exception):
    'the simulation used more than its budget'

class Sim:
    'state of all seams in this process; reset() before each simulated run'

    def __init__(self):
        self.active = False
        self.reset()

    def reset(self):
        'everything off'

        self.lp_total = 0
        self.lp_calls = 0          # glp_simplex calls by hylaa
        self.lp_budget = None
        self.lp_faults = {}        # call index -> fault dict
        self.lp_dead = None        # (first index, codes): every call fails from there on
        self.lp_status_override = None
        self.lp_status_name = None
        self.lp_hook = None        # called with index before each solve
        self.std_basis = set()     # call indices before which the basis is lost
        self.gc_every = 0
        self.req_calls = 0         # minimize() calls which require a solution (fail_on_unsat)
        self.req_faults = {}       # index -> number of tries reporting infeasible
        self.pending_nofeas = 0
        self.clock_reads = 0
        self.clock = 1000.0
        self.clock_plan = None     # function(read index) -> increment
        self.sleeps = 0
        self.slept = 0.0
        self.writes = 0
        self.write_fault = {}      # write index -> exception
        self.chars = 0
        self.text = None           # list of what was written, if it is to be kept
        self.call_events = 0
        self.call_fault = None     # (index, exception)
        self.fired = {}            # fault kind -> count
        self.ui = None             # simulated display

    def reset_plans(self):
        'as reset(), but goes on counting injected faults and solver calls'

        fired, calls, ui = self.fired, self.lp_calls, self.ui
        total = getattr(self, 'lp_total', 0) + calls
        self.reset()
        self.fired, self.ui, self.lp_total = fired, ui, total

    def fire(self, kind):
        'note that a fault was really injected'

        self.fired[kind] = self.fired.get(kind, 0) + 1

SIM = Sim()

def _simplex(lp, params):
    'seam for the LP solver'

    if not SIM.active:
        return _real_simplex(lp, params)

    index = SIM.lp_calls
    SIM.lp_calls += 1
    SIM.lp_status_override = None

    if SIM.lp_budget is not None and index >= SIM.lp_budget:
        raise Stuck(f'more than {SIM.lp_budget} LP calls')

    if glpk.glp_get_num_cols(lp) > MAX_COLS:
        raise TooLarge()

    if SIM.gc_every and index % SIM.gc_every == 0:
        gc.collect()
        SIM.fire('gc_point')

    if index in SIM.std_basis:
        glpk.glp_std_basis(lp)
        SIM.fire('lp_basis_lost')

    fault = SIM.lp_faults.get(index)

    if SIM.lp_dead is not None and index >= SIM.lp_dead[0]:
        codes = SIM.lp_dead[1]
        fault = {'code': codes[index % len(codes)]}

    if fault is not None:
        if 'exc' in fault:
            SIM.fire('interrupt_lp_' + fault['exc'])
            raise EXC[fault['exc']](f'simulated at LP call {index}')
        if 'code' in fault:
            SIM.fire('lp_' + fault['code'])
            return LP_CODES[fault['code']]
        if 'status' in fault:
            SIM.lp_status_name = 'lp_status_' + fault['status']
            SIM.lp_status_override = LP_STATUS[fault['status']]

    if SIM.pending_nofeas:
        SIM.pending_nofeas -= 1
        SIM.lp_status_name = 'lp_spurious_infeasible'
        SIM.lp_status_override = glpk.GLP_NOFEAS

    # real time never decides: instead of the time limit, the real solver has a limit of iterations
    old = params.tm_lim, params.it_lim
    params.tm_lim = 2**31 - 1
    params.it_lim = min(params.it_lim, 50000)
    rv = _real_simplex(lp, params)
    params.tm_lim, params.it_lim = old

    if rv == glpk.GLP_EITLIM and old[1] > 50000:
        SIM.fire('lp_cycled')
        rv = glpk.GLP_ETMLIM

    if rv == 0 and doubt.active():
        doubt.check(lp)

    return rv

def _get_status(lp):
    'seam for the status of the solution'

    if not SIM.active or SIM.lp_status_override is None:
        return _real_status(lp)

    rv = SIM.lp_status_override
    SIM.lp_status_override = None
    SIM.fire(SIM.lp_status_name)
    return rv

_real_clock = {name: getattr(_time, name) for name in ('perf_counter', 'time', 'monotonic', 'sleep')}

def _read_clock():
    'next reading of the simulated clock'

    index = SIM.clock_reads
    SIM.clock_reads += 1

    if SIM.clock_plan is None:
        SIM.clock += 0.001
    else:
        SIM.clock += SIM.clock_plan(index)

    return SIM.clock

def _clock(name):
    'make a clock seam'

    def func():
        'simulated clock'

        # other libraries (matplotlib) also read clocks: only hylaa's readings are numbered and may be interrupted
        if not SIM.active or not sys._getframe(1).f_globals.get('__name__', '').startswith('hylaa'):
            return _real_clock[name]() if not SIM.active else SIM.clock

        return _read_clock()

    return func

def _sleep(secs):
    'simulated sleep'

    if not SIM.active:
        _real_clock['sleep'](secs)
    else:
        SIM.sleeps += 1
        SIM.slept += secs
        SIM.clock += secs

class SimStdout:
    'output stream which counts writes and may fail'

    encoding = 'utf-8'
    errors = 'strict'

    def write(self, text):
        'simulated write'

        index = SIM.writes
        SIM.writes += 1
        exc = SIM.write_fault.get(index)

        if exc is not None:
            SIM.fire('write_' + exc)
            raise EXC[exc](28, f'simulated at write {index}')

        SIM.chars += len(text)

        if SIM.text is not None:
            SIM.text.append(text)

        return len(text)

    def flush(self):
        'nothing to do'

    def isatty(self):
        'not a terminal'
        return False

    def fileno(self):
        'no file'
        raise OSError('no fileno')

_OUT = SimStdout()
_PREFIX = os.path.join(os.path.realpath(REPO), 'hylaa') + os.sep

def _profiler(frame, event, _arg):
    'counts calls of hylaa functions and delivers an asynchronous interruption at one of them'

    if event != 'call':
        return

    code = frame.f_code
    name = code.co_filename

    # not inside attribute assignment: an assignment to an object of hylaa is atomic
    if not name.startswith(_PREFIX) or name.endswith('util.py') and code.co_name == '__setattr__' \
       or code.co_name in ('__del__', '__hash__', '__eq__'):
        return

    # not between the parts of starting or stopping a timer: no order of these is promised
    if name.endswith('timerutil.py') and frame.f_back is not None and \
       frame.f_back.f_code.co_filename.endswith('timerutil.py'):
        return

    index = SIM.call_events
    SIM.call_events += 1

    if SIM.call_fault is not None and index == SIM.call_fault[0]:
        sys.setprofile(None)
        SIM.fire('interrupt_call_' + SIM.call_fault[1])
        raise EXC[SIM.call_fault[1]](f'simulated at call {index} ({code.co_name})')

def install():
    'install the seams; must come before importing hylaa'

    if 'hylaa' in sys.modules and glpk.glp_simplex is not _simplex:
        raise HarnessError('seams installed after hylaa was imported')

    glpk.glp_simplex = _simplex
    glpk.glp_get_status = _get_status
    _time.perf_counter = _clock('perf_counter')
    _time.time = _clock('time')
    _time.monotonic = _clock('monotonic')
    _time.sleep = _sleep

    if REPO not in sys.path:
        sys.path.insert(0, REPO)

    sys.dont_write_bytecode = True

    import matplotlib
    matplotlib.use('Agg')

    from sim import ui
    ui.install()

    import hylaa
    where = os.path.dirname(os.path.realpath(hylaa.__file__)) + os.sep

    if where != _PREFIX:
        raise HarnessError(f'wrong hylaa imported: {where}')

    from hylaa.lpinstance import LpInstance
    orig_minimize = LpInstance.minimize

    def minimize(self, direction_vec=None, columns=None, fail_on_unsat=True, **kwargs):
        'seam: spurious infeasibility where a solution is required'

        if SIM.active and fail_on_unsat:
            index = SIM.req_calls
            SIM.req_calls += 1
            tries = SIM.req_faults.get(index, 0)

            if tries:
                SIM.pending_nofeas = tries

        try:
            return orig_minimize(self, direction_vec, columns, fail_on_unsat, **kwargs)
        finally:
            if SIM.active and fail_on_unsat:
                SIM.pending_nofeas = 0

    LpInstance.minimize = minimize

    # what exists now is never garbage: simulated collections only look at objects of the run
    import hylaa.core # pylint: disable=unused-import
    gc.collect()
    gc.freeze()

class running:
    'context: seams active, simulated output, no automatic garbage collection'

    def __init__(self, profile=False):
        self.profile = profile
        self.old = None

    def __enter__(self):
        self.old = (sys.stdout, gc.isenabled())
        sys.stdout = _OUT
        gc.disable()
        SIM.active = True

        if self.profile:
            sys.setprofile(_profiler)

    def __exit__(self, *_):
        sys.setprofile(None)
        SIM.active = False
        sys.stdout = self.old[0]

        if self.old[1]:
            gc.enable()

def seed_global_random(seed):
    'put the shared random generators into some state'

    random.seed(seed)
    np.random.seed(seed % (2**32))
