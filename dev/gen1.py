import textwrap
HEAD='''
import sys
import numpy as np
from hylaa import lputil
from hylaa.aggstrat import Unaggregated, Aggregated
from hylaa.core import Core
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.stateset import StateSet

def settings(step, time, strat=None):
    s = HylaaSettings(step, time)
    s.stdout = HylaaSettings.STDOUT_NONE
    s.plot.plot_mode = PlotSettings.PLOT_NONE
    s.aggstrat = Unaggregated() if strat is None else strat
    return s

def box(st):
    lpi = getattr(st, 'lpi', st)
    rv = []
    for d in range(lpi.dims):
        v = [0] * lpi.dims
        for sign in (1, -1):
            v[d] = sign
            rv.append(float(lpi.minimize(v, columns=[lpi.cur_vars_offset + d])[0]))
    return rv

def explore(core, init):
    "returns a list of (mode name, step in mode, steps since start, box)"
    rv = []
    core.setup(init)
    while not core.is_finished():
        core.do_step()
        st = core.aggdag.get_cur_state()
        if st is not None:
            rv.append((st.mode.name, st.cur_step_in_mode, list(st.cur_steps_since_start), [round(x, 6) + 0.0 for x in box(st)]))
    return rv
'''
def bug(ident, needs, breaks, edits, demo, head=True):
    with open('/tmp/x/bugs/%s.py'%ident,'w') as f:
        f.write('PROP=%r\nNEEDS=%r\nBREAKS=%r\nEDITS=%r\nDEMO=%r\n'%(ident.split('-')[0],needs,breaks,edits,(HEAD if head else '')+textwrap.dedent(demo)))
