import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"meaning":x,"where":mech[0][1]} for x in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="hylaa/core.py";S="hylaa/stateset.py";L="hylaa/lputil.py";I="hylaa/lpinstance.py";D="hylaa/aggdag.py";G="hylaa/deaggregation.py"
H="hylaa/hybrid_automaton.py";R="hylaa/result.py";T="hylaa/time_elapse_expm.py";PU="hylaa/plotutil.py";AS="hylaa/aggstrat.py";AG="hylaa/aggregate.py"
prop("C01","Without merging, the explored sets are exactly the reachable states",
"When no sets are merged and no approximation model is chosen, the set computed for a mode at a time step is exactly the set of states reachable there by the discrete-time semantics (initial set, invariant at each step, inputs drawn freely from their bounds at every step, guards tested after each step, resets with their extra variables), no more and no less up to solver tolerance. Every enabled transition yields a successor and no disabled one does, and the error verdict is 'unsafe' exactly when some error mode is reachable within the step bound. This holds for whatever order the pending sets are taken in.",
["inputs","schedules","configurations"],
"All automata with affine dynamics, bounded inputs, polyhedral invariants/guards and affine resets with extra variables; all initial sets (boxes, constraints, zonotopes, several at once); all orders of taking pending sets; urgent guards on or off.",
"Tests run a handful of fixed 1-3 dimensional automata in the default order and compare a few step counts or vertices; errors that need inputs combined with invariants, several resets, dimension changes or a different order are never reached.",
[C,S,L,H,D],[("continuous post",C+" do_step_continuous_post, check_guards, intersect_invariant"),("successors",D+" make_op_transition; "+L+" add_reset_variables"),("step",S+" step; "+L+" set_basis_matrix, add_input_effects_matrix, add_init_constraint, try_replace_init_constraint"),("guards",H+" get_guard_intersection")],
["waiting list","LP of each state set"],["support of every state set after every step","successors and verdict"])
prop("C02","Merging sets never loses a reachable state",
"When several pending sets are merged into one, the merged set contains every state of every member, starts in the same mode, and its time interval spans the members' time intervals; whatever is explored from it afterwards contains everything that would have been explored from the members. A box or template merge is no larger than the bounding box of its members and a convex-hull merge is exactly their convex hull. So an analysis with merging never answers 'safe' if an error mode is reachable.",
["inputs","schedules","configurations"],
"All automata and initial sets as in C01, all merge kinds (box, template with dynamics directions, convex hull), with and without guard directions, any grouping and order of pending sets chosen by the schedule.",
"Tests merge two or three sets in fixed examples with one grouping and look at a count or one vertex; containment of every member in every direction over all groupings is a universally quantified statement.",
[AG,AS,D,L],[("template merge",AG+" aggregate_box_arnoldi; "+L+" aggregate, make_direction_matrix, reorthogonalize_matrix"),("hull merge",AG+" aggregate_chull; "+L+" aggregate_chull"),("pop and group",AS+" pop_waiting_list; "+D+" pop_waiting_list")],
["waiting list","aggregation DAG"],["merged set when it is taken","verdict"])
prop("C03","Splitting merged sets on demand loses nothing and ends in the exact verdict",
"When merged sets are split again because an error or several different transitions were seen, every concrete execution within the step bound stays covered by the refined sets, whatever merge grouping, pop order and split preference the schedule picks. Nothing is explored past the step bound, pending work that does not come from the split set is kept, and a result is reported as concretely unsafe only if an error mode is really reachable. Once splitting has finished, the analysis is concretely unsafe exactly when the unmerged analysis of the same automaton is.",
["inputs","schedules","configurations"],
"All automata and initial sets as in C01 within size bounds, all merge kinds, all three split preferences, grouping by path or across paths, any pop order.",
"Tests replay a few fixed examples in the default order; conservation of pending work and coverage under every split/merge order is only visible over many schedules.",
[G,D,AS,C],[("split and replay",G+" begin_replay, do_step_replay, update_transition_successors, make_outside_nodes"),("replay of operations",D+" replay_op, replay_op_transition, replay_op_intersect_invariant, remove_node_decendants_from_waiting_list"),("choice of the split node",AS+" get_deagg_node")],
["aggregation DAG","replay queue","waiting list"],["sets reached along sampled concrete executions in the refined DAG","verdict"])
prop("C04","A counterexample is a real execution to the error",
"Whenever an unsafe result carries a counterexample, its segments form a genuine execution: it starts in an initial set, each segment spends its stated number of steps in its mode under the mode's dynamics with inputs within their bounds, stays in the invariant, takes its outgoing transition with the guard true, and continues from the reset of the previous segment, the last transition leading to an error mode within the step bound. An unsafe verdict without merging always carries one when counterexamples are requested.",
["inputs","schedules","fault_sequences"],
"All unsafe automata in the C01 space (inputs, resets with extra variables, dimension changes, zonotope initial sets, merging with splitting), all pop orders, with masked solver failures injected.",
"Tests check one or two counterexample end points on fixed systems; nothing checks each segment, input and reset of counterexamples from arbitrary paths.",
[R,C],[("construction",R+" make_counterexample"),("trigger",C+" error_reached"),("variable names",L+" add_reset_variables, add_input_effects_matrix")],
["LP solution"],["result.counterexample"])
prop("C05","Each pending set is explored once, to the end, and the analysis finishes",
"Every initial set and every successor is taken from the pending work exactly once (alone or as a member of one merge) unless the analysis stops early because of an error, and is advanced one step at a time until it leaves the invariant, reaches the step bound, or a documented shortcut applies; no set is advanced past the bound, which is the maximum time divided by the step size, rounded up (an exact multiple is not exceeded). The analysis finishes after a number of steps bounded by the sets it created, no matter in which order pending work is taken. When told to stop at a concrete or at a merged error it stops at the first such error and otherwise explores everything. With the provided strategies, the next pending set is the one their settings name (lowest minimum time, lowest average time, or largest maximum time), and exactly those which belong together are merged with it (same mode; same parent and transition if only same paths are merged; never for unaggregated analyses). The verdict printed at the end is the verdict returned.",
["schedules","histories","configurations"],
"All automata in the C01 space, all pop orders and groupings, all settings of the two stop flags, step bounds from 1, several initial sets including infeasible ones.",
"Tests use one order and check final counts on fixed examples; lost or duplicated work depends on the interleaving of pops, time-triggered exits, the step bound and errors.",
[C,D,AS],[("work loop",C+" do_step_reach, do_step_continuous_post, do_step_pop, is_finished"),("pending work",D+" pop_waiting_list, add_transition_successor, cur_state_left_invariant"),("grouping",AS+" pop_waiting_list")],
["waiting list","current set","time-triggered flag"],["sequence of taken sets and steps"])
prop("C06","Solver failures are masked or reported, never turned into a wrong answer",
"If a single call of the LP solver fails with a numerical, iteration-limit or time-limit error, or wrongly reports infeasibility where a solution is required, the retry masks it and the analysis ends with the same verdict and the same sets. If failures persist, the analysis stops with an error. It never returns a verdict or set that differs from the failure-free one, or a counterexample that is not a real execution.",
["fault_sequences","crash_points","inputs"],
"Any automaton in the C01/C02/C03 space, any failing call position, failure code, burst length and set of unusual solver statuses; also lost warm-start bases before any call.",
"Tests never make the solver fail; the retry and error paths only run when GLPK has numerical trouble.",
[I,L,C],[("retry",I+" minimize, _process_simplex_result"),("callers that accept 'infeasible'",L+" check_intersection, try_replace_init_constraint, get_box_center; "+H+" get_guard_intersection")],
["LP basis"],["verdict, sets, raised errors"])
prop("C07","An aborted analysis leaves nothing behind",
"If an analysis is interrupted at any point by an exception (Ctrl-C, out of memory, a failing plot, print or solver call), the exception reaches the caller, and running an analysis of the same automaton with the same settings (including those of the plot) and fresh initial sets afterwards gives exactly the result it gives in a fresh process. The same holds for a different automaton analysed next.",
["crash_points","histories"],
"Any automaton in the C01-C03 space, any interruption point (solver calls, prints, plotting calls, step boundaries), any exception kind, one or several aborts in a row.",
"Tests never abort an analysis half-way and then continue in the same process.",
[C,"hylaa/timerutil.py",H,T],[("setup of shared automaton data",C+" setup_ha, setup; "+H+" detect_tt_transitions, do_guard_strengthening, init_time_elapse"),("process-wide state","hylaa/timerutil.py Timers; "+I+" LpInstance print functions; "+C+" random seed")],
["automaton objects","timer stack","print functions","random state"],["result signature of the later analysis"])
prop("C08","The result depends only on the inputs, not on what ran before or alongside",
"Analysing the same automaton, initial sets and settings gives the same verdict, the same explored sets step by step and the same counterexample, regardless of which analyses (other automata, or the same automaton with other step sizes, options or initial sets) ran earlier in the process, of analyses of other automata advanced in between (each with its own state of the global random generator), of the state of the random number generators at the start, of verbosity, and of hash or memory-address order.",
["histories","schedules","configurations"],
"All sequences of up to several analyses over shared or separate automaton objects, analyses of separate automata interleaved step by step in any order, arbitrary prior random-generator states, different hash seeds, garbage collection at any step.",
"Every test starts from a new automaton and none compares a run with its repetition after other work.",
[C,H,"hylaa/time_elapse.py","hylaa/timerutil.py"],[("per-run setup",C+" __init__, setup_ha"),("guard relaxation and strengthening",H+" detect_tt_transitions, check_and_relax_time_triggered, do_guard_strengthening"),("random directions",L+" make_direction_matrix, reorthogonalize_matrix")],
["automaton objects shared by runs","global random state"],["result signature"])
prop("C09","Plotting and user events never change the analysis; plot data match the sets",
"Whatever the plot mode, and whatever sequence of frames, button presses, pauses and draw strides the display delivers, the analysis explores the same sets and reaches the same verdict as without plotting. When plot data are stored and every step is drawn, each explored set at each step is recorded once under its mode and step (the plots of a set that was split are removed at the steps at which its parts are replayed), and each recorded outline lies on the set and spans its extent in the plotted directions or over its time interval, within the plot's accuracy, and is on the drawing, within the axes unless their limits were fixed; what the user adds to a drawing is on it too. In interactive mode nothing advances while paused, one press of Step advances exactly one step, and a click reports the set that was clicked.",
["schedules","configurations","inputs"],
"All plot modes, all frame and event schedules (next, step, save, click, close), draw strides and skip counts, multiple subplots, time or state-variable axes, with and without merging and splitting.",
"Tests use no plotting or one static image; frame and button schedules are never varied.",
[PU,R,S,"hylaa/lpplot.py"],[("frames",PU+" anim_func, anim_iterator, compute_and_animate, run_to_completion"),("recording",PU+" plot_current_state, add_plotted_states, delete_plotted_state; "+R+" PlotData"),("outlines",S+" verts; hylaa/lpplot.py get_verts")],
["interactive state","plot data"],["result and result.plot_data"])
prop("C10","The clock never influences the result, and timing reports add up",
"A clock that stalls, jumps, or runs fast or slow never changes the sets, the verdict, what a display shows after each frame or whether the analysis completes, including when statistics are printed. After an analysis, the reported total is the clock time between its start and end, every timer has been stopped, each timer's time is the sum of its own intervals, and no group of sub-timers reports more time than its parent when the clock never goes back.",
["fault_sequences","schedules","configurations"],
"All clock behaviours at every clock read (constant, tiny, huge, forward or backward steps), all verbosity levels, all automata in the C01-C03 space.",
"Tests use the real clock, which never stalls or jumps.",
["hylaa/timerutil.py",C],[("timers","hylaa/timerutil.py TimerData, Timers"),("run",C+" run")],
["timer stack"],["result.top_level_timer, printed statistics, result signature"])
prop("C11","Every simulated trace is a real execution, independent of its batch",
"Each trace of a batch of simulations starts inside the given box, follows the mode's dynamics at every step, stays within the invariant before each step, takes a transition as soon as one is enabled after a step and continues from its reset, and ends at the step bound, at a violated invariant or on entering an error mode. What a trace does depends only on its start point, not on its position in the batch, the other traces, or the order in which modes are taken; the same seed gives the same start points. Automatic axes show every simulated point.",
["schedules","inputs","histories"],
"All automata without inputs and without extra reset variables, all boxes, batch sizes and ranges, mode orders (either strategy, avoided modes), urgent guards on or off, frame schedules.",
"One test counts simulation lines of a single fixed model.",
[C,PU,AS,H],[("simulation steps",C+" simulate, do_step_sim, sim_pop_waiting_list"),("mode order",AS+" get_simulation_pop_mode"),("recording",PU+" plot_current_sim, commit_cur_sims")],
["simulation waiting list"],["result.sim_lines, simulation states"])
prop("C12","Time-step matrices are right for any request order",
"For any sequence of requested step numbers, forwards, backwards, repeated or skipping, by any number of sets sharing a mode, the returned state matrix is the exponential of the dynamics over that time and the returned input matrix is the effect of an input held during one step, that many steps earlier. Matrices returned earlier are never altered by later requests, and the same holds after the mode has been switched to the support-function approximation.",
["histories","schedules","inputs"],
"All dynamics and input matrices (nilpotent, stiff, zero, defective, sparse), step sizes, and interleaved request sequences by several clients, including switching to the approximation at any point.",
"Tests only request consecutive steps from zero on a few matrices.",
[T,"hylaa/time_elapse.py",S],[("matrices",T+" assign_basis_matrix, init_matrices, use_lgg_approx"),("use",S+" step")],
["last step and cached matrices"],["returned matrices"])
prop("C13","A linear program answers from its constraints alone",
"For any history of adding columns and rows, setting constraints, changing right-hand sides and directions, solving and cloning, each answer (feasible or not, optimal point, read-back of rows, right-hand sides and types) is the one determined by the current constraints and direction. It does not depend on earlier solves, on lost or stale warm-start bases or on solver failures that were retried, and clones neither affect nor are affected by their original.",
["histories","fault_sequences","inputs"],
"All operation histories over bounded LPs with equality and inequality rows, several handles and clones interleaved, with basis loss and solver failures injected.",
"Tests solve each LP once or twice after a fixed construction.",
[I],[("solve",I+" minimize, set_minimize_direction, is_feasible"),("edit",I+" set_constraints_csr, set_constraints_csc, add_rows_less_equal, set_constraint_rhs, clone"),("read back",I+" get_full_constraints, get_row, get_rhs, get_types, get_dense_constraints")],
["GLPK problem object"],["return values"])
prop("C14","Failing output is reported and what is written is faithful",
"If writing an image, video, LP file or graph fails at any point (full disk, missing directory, missing program, early end of the recording), or a display is closed before the analysis is complete, the caller gets an exception and is never told of success, and the analysis can be run again with the correct result. What is written without failure is faithful: an exported LP reads back as the same problem, a saved image is the drawing of the completed analysis, a saved video holds every step of a completed analysis, and the graph has a node for every explored set and an edge for every transition of the sets explored to the end.",
["fault_sequences","crash_points","configurations"],
"All output kinds, failure at any write, plot modes image and video, automata in the C01-C03 space.",
"No test makes output fail or reads back what was written.",
[PU,I,D],[("image and video",PU+" save_image, save_video"),("LP export",I+" write_lp_glpk, write_lp_cplex"),("graph",D+" save_viz, viz")],
["files"],["exceptions, written files"])
prop("C15","With the support-function approximation, sets cover continuous time",
"With the support-function approximation model, the set reported for a mode at step k contains every state a continuous trajectory that starts in the entered set can have between k and k+1 steps after entering, for every input signal within the bounds, as long as the trajectory satisfies the invariant. Convex-hull approximation contains the discrete states of both neighbouring steps and all points between them. Neither ever loses a state of the plain discrete analysis.",
["schedules","inputs","configurations"],
"All modes with affine dynamics and bounded inputs, initial sets and sets entered through resets, all piecewise-constant disturbance schedules within a step, both approximation models, with and without merging.",
"Tests compare vertices for one or two fixed systems at one step.",
[S,T,L],[("first step",S+" apply_approx_lgg, apply_approx_chull; "+L+" bloat, minkowski_sum, compute_radius_inf, from_input_constraints"),("later steps",T+" use_lgg_approx; "+L+" add_input_effects_matrix")],
["LP of the current set"],["membership of sampled trajectory states"])
prop("C16","Optional shortcuts never change what is reachable",
"Switching guard strengthening or the skipping of modes with zero dynamics on or off never changes the verdict or the set of states reachable in any mode over the whole analysis. Treating a transition as time-triggered never loses it: whenever its condition is met by the clock up to rounding it is taken once, at that step; the remaining set is dropped only then, and only if the clock leaves the invariant, so an error reachable through it is found. Explored sets with the shortcut are never larger than without it, except for its stated rounding margin.",
["configurations","inputs","schedules"],
"All automata in the C01 space with clock variables, opposite invariants and guards, zero-dynamics modes and target invariants; all combinations of the three options; step sizes that are not exactly representable; all pop orders.",
"Tests enable the options on one or two fixed automata and check a step count.",
[H,C],[("time-triggered",H+" detect_tt_transitions, check_and_relax_time_triggered, was_tt_taken; "+C+" check_guards"),("strengthening",H+" do_guard_strengthening"),("zero dynamics",C+" do_step_continuous_post")],
["transition guards"],["verdict and sets per mode under different options"])
prop("C17","Symbolic dynamics and conditions are translated to the right matrices",
"Parsing derivative expressions and conditions over named variables gives the matrices and right-hand sides of exactly those affine expressions, and rejects anything that is not affine.",
["inputs"],"All affine expressions over all variable lists.",
"A few fixed strings are parsed in tests.",
["hylaa/symbolic.py"],[("parser","hylaa/symbolic.py make_dynamics_mat, make_condition, make_reset_mat")])
prop("C18","A two-dimensional outline is within the stated accuracy of the projected set",
"For any bounded polyhedral set, the computed outline polygon lies within the projection of the set and within the requested accuracy of its boundary.",
["inputs"],"All bounded sets and accuracies.",
"Tests check a few squares and triangles.",
["hylaa/kamenev.py","hylaa/lpplot.py"],[("outline","hylaa/kamenev.py get_verts")])
prop("C19","Building an initial set represents exactly the given shape",
"A set built from a box, from linear constraints or from a zonotope contains exactly the points of that shape, and an empty description is rejected.",
["inputs"],"All boxes, constraint systems and zonotopes.",
"Tests build a few small sets.",
["hylaa/lputil.py"],[("constructors","hylaa/lputil.py from_box, from_constraints, from_zonotope")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
import re
for p in P:
    n=len(re.findall(r'[.](?:\s|$)',p["statement"]))
    print(p["id"],len(p["title"]),n)
