'configuration of the checks (no imports: read by the runner, which does not import hylaa)'

WORLD_RULE = ('each case is a random hybrid automaton (1-4 modes plus error modes, 1-4 variables, guards and invariants placed '
              'across a nominal trajectory), initial sets, settings, a schedule of pending-set choices and a fault plan; ')

CONF = {
    'C01': {
        'RULE': WORLD_RULE + 'non-trivial: at least one transition was taken in the run',
        'COUNT': {'quick': 3200, 'thorough': 200000},
        'NOTE': ('lock-step comparison of the real analysis with an independent reference model on seeded random worlds; '
                 'assurance is by sampling of worlds and schedules'),
        'ASSUMPTIONS': ['reference sets are compared in axis, random and invariant directions, not in all directions',
                        'decisions within 1e-6 of a boundary are accepted either way',
                        'runs are cut off after 260 steps or when values exceed 2000'],
    },
    'C02': {
        'RULE': WORLD_RULE + 'non-trivial: at least two pending sets were merged',
        'COUNT': {'quick': 2400, 'thorough': 150000},
        'NOTE': ('every merge of every simulated run is checked for containment and tightness against the members, what '
                 'follows is compared in lock-step with the reference model, and sampled states of an independent exact '
                 'exploration must be covered; assurance is by sampling of worlds, groupings and pop orders'),
        'ASSUMPTIONS': ['reference sets are compared in axis, random and invariant directions, not in all directions',
                        'decisions within 1e-6 of a boundary are accepted either way',
                        'runs are cut off after 200 steps or when values exceed 2000'],
    },
    'C05': {
        'RULE': WORLD_RULE + 'non-trivial: at least two sets were explored',
        'COUNT': {'quick': 3000, 'thorough': 150000},
        'NOTE': ('conservation of pending sets, progress of every step, the step bound and the stop rules are invariants '
                 'checked after every step of every simulated run (any pop order, stock and scheduled strategies); liveness '
                 'is a bound on the number of steps; assurance is by sampling'),
        'ASSUMPTIONS': ['decisions within 1e-6 of a boundary are accepted either way',
                        'runs are cut off after 250 steps, 60 pending sets or when values exceed 2000'],
    },
    'C16': {
        'RULE': WORLD_RULE + ('each is analysed with all shortcuts off, with guard strengthening and/or zero-dynamics skipping '
                              'on, and with time-triggered transitions on; non-trivial: a shortcut was really used'),
        'COUNT': {'quick': 1400, 'thorough': 60000},
        'NOTE': ('three monitored analyses of each world (shortcuts off, strengthening/skipping on, time-triggered on) are '
                 'compared with the reference model step by step, and their verdicts and sampled reachable states with each '
                 'other; assurance is by sampling of worlds'),
        'ASSUMPTIONS': ['unmerged analyses are compared with each other (merging may legitimately blur differences)',
                        'pairs with a decision within 1e-6 of a boundary are not compared with each other'],
    },
    'C03': {
        'RULE': WORLD_RULE + 'merging and splitting are on; non-trivial: at least one merged set was split',
        'COUNT': {'quick': 2600, 'thorough': 120000},
        'NOTE': ('concrete executions taken from an independent exact exploration are followed through the final aggregation '
                 'graph and must be covered at every step; the final verdict is compared with the exact one; the step bound '
                 'is an invariant of every step; assurance is by sampling of worlds, groupings, pop orders and split '
                 'preferences'),
        'ASSUMPTIONS': ['decisions within 1e-6 of a boundary are accepted either way',
                        'runs are cut off after 400 steps, 60 pending sets or when values exceed 2000',
                        'with an approximation model only coverage is checked, not the verdict'],
    },
    'C13': {
        'RULE': ('each case is a history of 8-150 operations on up to 5 problems which are clones of each other or not, with '
                 'injected solver failures; non-trivial: more than two answers, at least one of them an optimum'),
        'COUNT': {'quick': 4500, 'thorough': 300000},
        'NOTE': ('seeded histories of operations on real problems and clones against a dense model solved with another '
                 'solver; assurance is by sampling of histories and failure plans'),
        'ASSUMPTIONS': ['problems have at most 14 columns and 29 rows with coefficients between -2 and 3',
                        'decisions within 1e-6 of a boundary are accepted either way'],
    },
    'C12': {
        'RULE': ('each case is a history of 4-120 requests for steps of 1-3 modes, directly and by several sets sharing a mode, '
                 'with switches to the support-function approximation; non-trivial: more than four requests'),
        'COUNT': {'quick': 6000, 'thorough': 600000},
        'NOTE': ('seeded request histories against an independent matrix exponential; assurance is by sampling of dynamics '
                 'and histories'),
        'ASSUMPTIONS': ['at most 9 variables, 3 inputs and 60 steps', 'matrices are compared with relative tolerance 1e-7'],
    },
    'C04': {
        'RULE': WORLD_RULE + 'non-trivial: there is a counterexample with at least two segments',
        'COUNT': {'quick': 4200, 'thorough': 300000},
        'NOTE': ('every counterexample of every simulated run is re-executed with independently computed matrices and checked '
                 'against the description of the automaton; assurance is by sampling of worlds and schedules'),
        'ASSUMPTIONS': ['numbers are compared with a tolerance of 1e-5 relative to the size of the states',
                        'guards may be exceeded by the stated margin of time-triggered transitions when those are on'],
    },
    'C10': {
        'RULE': WORLD_RULE + ('each is analysed with an ordinary clock and with 1-2 odd clocks (stalled, fast, jumping, going '
                              'back, tiny, frozen halfway) and verbosities, a quarter of them while plotting; non-trivial: more '
                              'than 5 steps'),
        'COUNT': {'quick': 1500, 'thorough': 200000},
        'NOTE': ('traces of the same analysis under simulated clocks are compared step by step, and every start and stop of a '
                 'timer is shadowed and compared with the report; assurance is by sampling of worlds and clocks'),
        'ASSUMPTIONS': ['sets are compared by their extents in axis and two skew directions',
                        'sums are not judged while the clock goes backwards'],
        'STUBS': ['window system: FuncAnimation, buttons, plt.show, plt.savefig'],
    },
    'C08': {
        'RULE': WORLD_RULE + ('each is analysed in an untouched process with another hash seed, and after up to 3 earlier and '
                              'while up to 2 other analyses advance; non-trivial: more than 4 steps and at least one other '
                              'analysis'),
        'COUNT': {'quick': 2000, 'thorough': 200000},
        'NOTE': ('step-by-step comparison of the trace of an analysis in a disturbed process with the trace in an untouched '
                 'one; assurance is by sampling of worlds, histories and interleavings'),
        'ASSUMPTIONS': ['sets are compared by their extents in axis and two skew directions',
                        'analyses advanced in between are of other automata (the matrices of an automaton belong to one '
                        'analysis at a time)'],
        'STUBS': ['window system: FuncAnimation, buttons, plt.show, plt.savefig'],
    },
    'C07': {
        'RULE': WORLD_RULE + ('each is interrupted 1-3 times (at a call, solver call, clock reading, output, step or frame) and '
                              'then analysed again, as is another automaton; non-trivial: really interrupted, and more than 4 '
                              'steps afterwards'),
        'COUNT': {'quick': 750, 'thorough': 200000},
        'NOTE': ('after interruptions at seeded points, step-by-step comparison of the trace of later analyses with the trace '
                 'in an untouched process; assurance is by sampling of worlds and points'),
        'ASSUMPTIONS': ['an assignment to an attribute is not interrupted halfway',
                        'sets are compared by their extents in axis and two skew directions'],
        'STUBS': ['window system: FuncAnimation, buttons, plt.show, plt.savefig'],
    },
    'C06': {
        'RULE': WORLD_RULE + ('each is analysed without faults and under 2-6 fault plans (single, several, burst and permanent '
                              'error codes, unusual statuses, wrong infeasibility, lost bases, mixtures) placed over all solver '
                              'calls; non-trivial: more than 4 steps and a fault was really injected'),
        'COUNT': {'quick': 1000, 'thorough': 200000},
        'NOTE': ('step-by-step comparison of the trace under a fault plan with the trace without faults, counterexamples are '
                 're-executed; assurance is by sampling of worlds and fault plans'),
        'ASSUMPTIONS': ['answers are not judged if changing all guards and invariants by 1e-5 changes the fault-free answer',
                        'infeasibility wrongly reported where it is a valid answer cannot be masked and is not injected',
                        'sets are compared by their extents in axis and two skew directions'],
    },
    'C11': {
        'RULE': ('each case is a random hybrid automaton (1-5 modes plus error modes), a box, a batch of 1-8 simulations under a '
                 'plot mode with a frame and button schedule, and 1-2 further batches (sub-range, single trace, other order of '
                 'modes, other plot, same again); non-trivial: some trace takes a transition'),
        'COUNT': {'quick': 2800, 'thorough': 200000},
        'NOTE': ('all traces are read back from the recorded lines, checked against an independent simulator and compared '
                 'between batches; assurance is by sampling of automata, boxes, batches and schedules'),
        'ASSUMPTIONS': ['guards and invariants closer than 1e-9 (time-triggered ones: the stated margin) may go either way',
                        'with more than one step per frame only the analysis, not the drawn lines, is judged'],
        'STUBS': ['window system: FuncAnimation, buttons, plt.show, plt.savefig'],
    },
    'C14': {
        'RULE': WORLD_RULE + ('each writes something: an image (real renderer), a video (simulated encoder), linear programs or '
                              'graphs at several steps (simulated drawing program), or its display is closed; the disk may be '
                              'full after any byte, directories and programs missing, programs and the encoder may fail at any '
                              'point; non-trivial: more than 3 steps'),
        'COUNT': {'quick': 1900, 'thorough': 200000},
        'NOTE': ('every failure has to reach the caller, and the analysis is repeated after it and compared with one without '
                 'output; what was written is read back and compared with the drawing, the frames, the problem or the graph it '
                 'was made of; assurance is by sampling of worlds and failure points'),
        'ASSUMPTIONS': ['answers are not judged if changing all guards and invariants by 1e-5 changes the answer without output',
                        'the video encoder and the graph drawing program are stand-ins which write text'],
        'STUBS': ['window system: plt.show, the event loop; in most runs also FuncAnimation', 'video encoder (ffmpeg)',
                  'graph drawing program (dot)'],
    },
    'C15': {
        'RULE': WORLD_RULE + ('each is analysed with an approximation model while up to 7 trajectories per entered set, with inputs '
                              'switching up to 8 times per step, are followed; non-trivial: more than 10 trajectory states were '
                              'looked up in explored sets'),
        'COUNT': {'quick': 2000, 'thorough': 200000},
        'NOTE': ('trajectory states computed with independent matrices are looked up in the explored sets and in the sets entered '
                 'through transitions; assurance is by sampling of worlds, trajectories and input signals'),
        'ASSUMPTIONS': ['trajectories within 1e-6 of the boundary of an invariant or guard are not followed',
                        'inputs are piecewise constant with up to 8 pieces per step'],
    },
    'C09': {
        'RULE': WORLD_RULE + ('each is analysed without and with a plot (all modes; 1-3 subplots over numbers, directions, '
                              'per-mode directions and time) under a schedule of frames, button presses, clicks and resizes; '
                              'non-trivial: more than 4 steps'),
        'COUNT': {'quick': 1100, 'thorough': 200000},
        'NOTE': ('step-by-step comparison of the trace with the trace without plotting; every entry of the plot data, its '
                 'outline and the drawing are compared with independently projected sets, clicks and buttons with what they '
                 'should do; assurance is by sampling of worlds, plots and event schedules'),
        'ASSUMPTIONS': ['answers are not judged if changing all guards and invariants by 1e-5 changes the answer without a plot',
                        'outlines are compared with tolerance 3e-5 relative to the size of the numbers, corners by sampling',
                        'plot data are judged when every step is drawn (draw stride 1)'],
        'STUBS': ['window system: plt.show, plt.savefig, the event loop; in most runs also FuncAnimation'],
    },
}
