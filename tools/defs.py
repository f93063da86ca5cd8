"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/defs.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIMPY, VERPY, HYB = "verse/analysis/simulator.py", "verse/analysis/verifier.py", "verse/automaton/hybrid_automaton.py"
SCPY, PARS, ATREE = "verse/scenario/scenario.py", "verse/parser/parser.py", "verse/analysis/analysis_tree.py"
SENS, GUARD, RESET = "verse/sensor/base_sensor.py", "verse/automaton/guard.py", "verse/automaton/reset.py"
INCR, LANE = "verse/analysis/incremental.py", "verse/map/lane_map.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None, level="model_checking"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[{"name": a, "where": b} for a, b in mech], tech=tech, note=note, observe=observe or [], level=level))


T_SIM = "TLA+ spec of the simulation engine; TLC validates recorded simulation trees (trace validation)"
T_VER = "TLA+ spec of the reachability engine on boxes; TLC validates recorded verification trees (trace validation)"
BOUND = ("random decision logics with integer-grid dynamics: 1-3 agents, 1-3 variables, 1-2 discrete variables, 2-3 modes each, "
         "up to 14 steps, tree depth up to 7; every recorded node is checked by TLC, nothing is proved beyond these scenarios")
TESTS = ("The repository's tests run a handful of demo scenarios and check little more than that they finish; ")

prop("P01", "A simulation is the execution of the agents' hybrid automaton",
     "In a simulated tree every node holds, for every agent, exactly the states its mode's dynamics produce from the node's initial state at each "
     "sampling time, up to the first time some agent's decision logic (or an assertion) fires or the horizon is reached. Its children start at that "
     "time, in the destination modes and reset states the decision logics prescribe for the states of all agents at that time. A node in which nothing "
     "fires runs to the horizon and has no children.",
     ["programs", "inputs"], "all decision logics of the supported Python subset, all agents, initial states and horizons",
     TESTS + "no test compares a tree with the semantics of its decision logic.",
     [SIMPY, HYB, "verse/agents/base_agent.py", SENS, PARS],
     [("simulate_one_simple / simulate / get_transition_simulate", SIMPY), ("decision logic evaluation", SIMPY)], T_SIM, BOUND,
     ["AnalysisTreeNode.trace/init/mode/start_time/child"])
prop("P02", "Simulation explores every enabled choice exactly once and nothing else",
     "When several transitions are enabled at the same time, the children of a simulated node are exactly all combinations of the enabled destination "
     "modes and resets of all agents that can move, each once. Every child's next state differs from its siblings in some mode or reset value; the "
     "expansion stops exactly at the requested maximum height.",
     ["programs", "inputs", "schedules"], "all decision logics with simultaneous and nondeterministic transitions of one or several agents, all heights",
     TESTS + "branching with several simultaneous movers and conflicting resets is never compared with an enumeration.",
     [SIMPY, HYB], [("candidate enumeration (itertools.product over resets and agents)", SIMPY)], T_SIM, BOUND,
     ["AnalysisTreeNode.child"])
prop("P04", "Simulation reports an assertion exactly where it is violated",
     "A simulated node records an assertion of an agent exactly if its enclosing conditions hold and the asserted condition is false at a state the node "
     "reaches, judged with that agent as ego. The node ends with the violating state and has no children, unless the configuration asks to continue past "
     "unsafe states, in which case all violations up to the node's end are recorded and exploration goes on.",
     ["programs", "inputs"], "all decision logics with assertions, nested conditions, any/all/sum quantifiers, all agents and initial states",
     TESTS + "the demos only print the assertions that were hit.",
     [SIMPY, PARS], [("check of the asserts at every step", SIMPY)], T_SIM, BOUND, ["AnalysisTreeNode.assert_hits", "AnalysisTreeNode.trace"])
prop("P05", "Verification never misses an assertion violation in the reachable set",
     "If some combination of states of the agents inside the over-approximation at one time violates an assertion whose enclosing conditions hold there, "
     "the verified tree reports that assertion for that agent in that node. It reports none that no such combination violates. The node's exploration stops at that segment unless continuing "
     "past unsafe states was requested.",
     ["programs", "inputs"], "all decision logics with assertions, all sets of initial states, all horizons",
     TESTS + "a missed violation on a set of states leaves every test green.",
     [VERPY, GUARD, HYB], [("assertion check per segment (guard satisfiability)", VERPY), ("check_hybrid/check_continuous", GUARD)], T_VER, BOUND,
     ["AnalysisTreeNode.assert_hits"])
prop("P07", "Verification branches into every transition possible on the reachable set",
     "In a verified tree a node has a child for every destination and reset whose guard can be satisfied by the agents' sets at some segment of the node's "
     "first guard window, and for no other. The child starts at the first such segment, carries for the moving agent the reset images of all segments of the window and for the others the set "
     "they had, and goes to the destination mode. A window ends when a guard holds on the whole set or no guard is met any more, not before the last of the node's initial sets has entered; the node ends with it.",
     ["programs", "inputs"], "all decision logics, all initial sets, all horizons and heights",
     TESTS + "no test looks at the branches of a verified tree.",
     [VERPY, GUARD, RESET, HYB], [("get_transition_verify, transition grouping", VERPY), ("guard checks", GUARD), ("reset images", RESET)], T_VER, BOUND,
     ["AnalysisTreeNode.child", "AnalysisTreeNode.init"])
prop("P03", "A decision logic means what its Python text says",
     "For every decision logic in the supported subset, however it is spelled (helper functions and lambdas with any parameter names, local variables, "
     "chained and flipped comparisons, elif/else, nested ifs, any/all/sum with filters, numeric constants of any form, labelled asserts, names that are prefixes of "
     "other names), the transitions, resets and assertions both engines act on are those of its guarded-assignment reading: each if adds its assignments under its "
     "condition, assignments in its else under the negation, and an assertion holds under all its enclosing conditions.",
     ["programs"], "all decision logics of the supported Python subset and all equivalent spellings",
     TESTS + "the parser is only exercised on the demos' own spellings.",
     [PARS, HYB, GUARD], [("proc / Env / unparse, reductions", PARS), ("guard expression handling", GUARD)],
     "TLA+ denotation of decision-logic ASTs; random equivalent Python spellings are run by both engines and the trees validated by TLC", BOUND,
     ["Scenario.simulate", "Scenario.verify"])
prop("P08", "A tube contains its initial set and every simulation it was learnt from",
     "Whatever the agents' flows are, a tube computed by DryVR, with either discrepancy and in continuous or discrete time, runs in whole sampling periods from the node's start to at most the horizon, contains the node's "
     "initial sets at its start and every simulation DryVR ran to learn it, at every time; a set with more than one point is sampled at more than its centre; and an agent that does not jump keeps the tube it had.",
     ["programs", "inputs"], "all agents with any (nonlinear) flow, all initial sets, horizons, time steps and init_seg_length",
     TESTS + "no test compares a tube with the simulations behind it.",
     ["verse/analysis/dryvr.py", "verse/analysis/dryvr_disc.py", VERPY], [("calc_bloated_tube, get_reachtube_segment", "verse/analysis/dryvr.py"), ("discrete-time variant", "verse/analysis/dryvr_disc.py"),
     ("tubes per group of initial sets, carried over to children", VERPY)],
     "TLA+ spec of what a tube owes its initial sets and simulations (Tubes); TLC judges recorded trees with the simulations they were learnt from (trace validation)",
     "random scenarios of 1-2 agents with 6 nonlinear flows in 1-2 variables, up to 8 steps; the simulator is the harness's own, so recorded simulations are all there were", ["Scenario.verify", "AnalysisTreeNode.trace"])
prop("P09", "Resets map states to exactly the values the decision logic assigns",
     "After a transition each continuous variable of the moving agent has the value of the expression assigned to it, evaluated on the state before the "
     "transition (in verification: the interval image of that expression on the agent's set), whatever other variables are reset at the same time; "
     "variables that are not assigned, and all variables of the other agents, keep their values or sets.",
     ["programs", "inputs"], "all reset expressions over the agent's variables, all states and boxes",
     TESTS + "no test inspects the state after a reset.",
     [RESET, SIMPY, VERPY, HYB], [("reset evaluation", SIMPY), ("ResetExpression, reset on boxes", RESET)], T_SIM + "; " + T_VER, BOUND,
     ["AnalysisTreeNode.init"])
prop("P10", "Agents only make the lane and mode changes the map permits",
     "A transition that changes an agent's track or its agent mode is taken if and only if the decision logic asks for it and the track map has an entry leading from the "
     "current track and mode, under the new mode, to the new track; map queries in guards and assignments (h, h_exist) answer from that same table.",
     ["programs", "inputs"], "all map tables, all decision logics using them, all modes and tracks",
     TESTS + "no test compares the taken transitions with the map.",
     [HYB, SIMPY, VERPY, LANE, PARS], [("map filter on candidate transitions", HYB), ("h / h_exist", LANE)], T_SIM + "; " + T_VER,
     "random map tables with 2-3 tracks; " + BOUND, ["AnalysisTreeNode.mode"])
prop("P11", "Agents decide and are judged on what their sensor shows them",
     "Guards, resets and assertions of an agent are evaluated on the scenario's sensor output for that agent: its own sensed state, and the states of exactly "
     "those other agents the sensor reports at that moment, in simulation and in verification; agents that are not sensed take no part in any/all/sum.",
     ["programs", "inputs"], "all sensors that shift the ego state or hide other agents depending on the states, all decision logics",
     TESTS + "nearly all demos use the perfect sensor.",
     [SENS, SIMPY, VERPY, GUARD], [("sense() per agent and step", SIMPY), ("unrolling of reductions over the sensed agents", PARS)], T_SIM + "; " + T_VER,
     "sensors with an offset and a range; " + BOUND, ["Scenario.set_sensor"])
prop("P12", "Every trace is a gapless time grid from node start to node end",
     "Rows of a simulated node lie at its start time plus multiples of the time step, from the node's start to its end; a verified node consists of consecutive "
     "pairs of rows whose intervals join without gap or overlap. A node ends at the time its children start, or exactly at the horizon, for every horizon and time step.",
     ["inputs"], "all horizons, time steps (also those that are inexact in binary) and transition times",
     TESTS + "no test looks at the time stamps.",
     [SIMPY, VERPY, "verse/agents/base_agent.py"], [("time bookkeeping of nodes", SIMPY), ("segment times, combine_all", VERPY)], T_SIM + "; " + T_VER, BOUND,
     ["AnalysisTreeNode.trace", "AnalysisTreeNode.start_time"])
prop("P13", "Trees are well formed and never higher than the requested height",
     "The nodes of a tree have distinct ids, every child has its parent's height plus one and a start time within its parent, no node reaches the "
     "requested maximum height, and every node below it is expanded completely.",
     ["programs", "inputs"], "all decision logics, all maximum heights including none",
     TESTS + "heights and ids are never checked.",
     [SIMPY, VERPY, ATREE], [("max_height cut-off", SIMPY), ("max_height cut-off", VERPY)], T_SIM + "; " + T_VER, BOUND,
     ["AnalysisTreeNode.height", "AnalysisTreeNode.id", "AnalysisTreeNode.child"])
prop("P25", "A node's reachtube is the union of the tubes of all its initial sets",
     "When a node starts from several initial sets (the images of a guard window's segments), its tube at every time is the union of the tubes of all of them, each "
     "starting at its own time, grouped as init_seg_length says; the other agents' tubes continue the ones they had. Nothing of it is lost or shifted in time.",
     ["programs", "inputs"], "all decision logics with guard windows of several segments, all init_seg_length",
     TESTS + "no test compares a tube with the union of its parts.",
     [VERPY, "verse/analysis/utils.py"], [("combine_all, tubes per group of initial sets", VERPY)], T_VER, BOUND,
     ["AnalysisTreeNode.trace"])
prop("P14", "Every reachability method computes the same verified tree",
     "With DryVR in its piecewise and its global discrepancy, in continuous and in discrete time, and with the mixed-monotone methods from a decomposition, a Jacobian or the text of "
     "the dynamics, a verified tree is the one the agents' automata prescribe: the tube of a node contains all executions from all of its initial sets under all values of the uncertain parameters, "
     "is exact where the method is, and assertions, windows and children follow from it.",
     ["programs", "inputs"], "all decision logics, linear agents with uncertain parameters, initial sets and reachability methods",
     TESTS + "a test uses one method on one agent.",
     [VERPY, "verse/analysis/dryvr.py", "verse/analysis/dryvr_disc.py", "verse/analysis/mixmonotone.py"],
     [("compute_full_reachtube_step: choice of the method", VERPY), ("get_reachtube_segment", "verse/analysis/dryvr.py"), ("decompositions", "verse/analysis/mixmonotone.py")], T_VER,
     "linear dynamics without cyclic coupling, on which every one of these methods is exact; " + BOUND, ["Scenario.verify"])
prop("P15", "An incremental simulation equals a fresh one",
     "In a scenario with incremental analysis switched on, every simulation in a sequence of simulations, with edited decision logics, initial states, modes, "
     "horizons or time steps in between, yields the same tree a fresh non-incremental scenario yields.",
     ["histories", "inputs"], "all histories of edits and simulations of one scenario",
     TESTS + "no test runs an incremental scenario twice and compares.",
     [INCR, SIMPY, SCPY], [("SimTraceCache, reuse of node results", INCR), ("incremental paths of simulate", SIMPY)], T_SIM,
     "histories of 2-4 runs with random edits; " + BOUND, ["Scenario.simulate with ScenarioConfig(incremental=True)"])
prop("P16", "An incremental verification is as sound and complete as a fresh one",
     "In a scenario with incremental analysis switched on, every verification in a sequence of edited verifications yields the tree a fresh scenario "
     "yields, except that a tube may be the one of a larger set of initial states computed in an earlier run for the same agent, mode and remaining "
     "horizon; branches and assertion verdicts are those of the tubes the tree shows.",
     ["histories", "inputs"], "all histories of edits and verifications of one scenario",
     TESTS + "no test runs an incremental scenario twice and compares.",
     [INCR, VERPY, SCPY], [("ReachTubeCache, TransitionCache", INCR), ("incremental paths of verify", VERPY)], T_VER,
     "histories of 2-4 runs with random edits; " + BOUND, ["Scenario.verify with ScenarioConfig(incremental=True)"])

SCHED = "sampled schedules of the task pool (which task finishes when, how many run ahead), not all of them; "
prop("P17", "Parallel exploration yields the same tree as sequential exploration",
     "With parallel analysis switched on, simulation and verification yield the tree the sequential engine is specified to yield, whatever order the remote "
     "tasks finish in, however many run ahead and whichever run locally, with and without incremental analysis.",
     ["schedules", "programs", "histories"], "all completion orders of the remote tasks, all decision logics, all run-ahead settings",
     TESTS + "no test runs the parallel engine.",
     [SIMPY, VERPY, SCPY], [("simulate: ray.wait loop, result_refs, cache updates", SIMPY), ("verify: ray.wait loop", VERPY)],
     "TLA+ specs of both engines; TLC validates trees recorded from the parallel code path under a stand-in for ray that runs tasks in seeded orders",
     SCHED + BOUND, ["Scenario.simulate/verify with ScenarioConfig(parallel=True)"])
prop("P18", "A dumped tree loads back as the same tree",
     "Loading a dumped simulated or verified tree yields nodes with the same ids, heights, parents, modes, start times, initial sets, traces, assertion hits and type, "
     "for every tree, and dumping it again gives the same file.",
     ["inputs", "histories"], "all trees the engines produce or a user builds, all node and agent names",
     TESTS + "one test compares a verified tree with a stored one.",
     [ATREE], [("AnalysisTree.dump / load, AnalysisTreeNode.to_dict / from_dict", ATREE)],
     "TLA+ spec of trees as data (TreeOps); TLC compares the loaded with the dumped tree", "random trees up to 8 nodes and trees from both engines",
     ["AnalysisTree.dump", "AnalysisTree.load"])
prop("P19", "Tree containment and equality mean what they say",
     "For reachtubes, contains says that, per agent, time and variable, the union of the other tree's intervals lies in the union of this tree's, each widened by the tolerance. "
     "For simulations it says that both trees have the same shape up to the order of siblings, and corresponding traces differ by less than the tolerance. "
     "Strict containment also asks for the same agents; is_equal is containment both ways. The answers are yes exactly then, on all trees.",
     ["inputs"], "all pairs of trees", TESTS + "these are the very oracles the tests compare with.",
     [ATREE], [("AnalysisTree.contains / is_equal, tree comparison", ATREE)],
     "TLA+ spec of containment and equality (TreeOps); TLC judges the recorded answers", "random pairs of related trees up to 8 nodes",
     ["AnalysisTree.contains", "AnalysisTree.is_equal"])
prop("P20", "Tree queries return what the tree contains",
     "nodes lists every node of the tree once, leaves counts the childless ones, get_leaf_nodes gives exactly those below a node, height is the longest way down from a node, and "
     "first_transitions gives, for exactly the agents whose mode changes somewhere, the earliest time of such a change.",
     ["inputs"], "all trees and all queries", TESTS + "the queries are only used by plotters.",
     [ATREE], [("nodes, leaves, get_leaf_nodes, height, first_transitions", ATREE)], "TLA+ spec of tree queries (TreeOps); TLC judges the recorded answers",
     "random trees up to 8 nodes", ["AnalysisTree", "first_transitions"])
prop("P21", "Agents and initial sets given to a scenario are the ones analysed",
     "After any sequence of add_agent, set_init, set_init_single, set_map, set_sensor and analyses, an analysis starts from exactly the initial sets, modes, static and "
     "uncertain parameters last given for each agent, whatever the caller does to its own lists afterwards; calls with wrong numbers of sets, dimensions or modes and analyses with agents "
     "without initial set are refused. A simulation starts inside the given sets, at the same points for the same seed.",
     ["histories", "inputs"], "all sequences of calls with points, boxes, modes as names or members, lists or tuples",
     TESTS + "each test uses one order of calls.",
     [SCPY, "verse/agents/base_agent.py"], [("set_init, set_init_single, add_agent", SCPY), ("check_init, sampling of points", SCPY)],
     "TLA+ spec of the scenario object as a state machine (InitApi); TLC validates recorded call histories", "histories of 4-12 calls on up to 3 agents",
     ["Scenario"])
prop("P22", "Analyses do not interfere with each other or with their arguments",
     "Simulations, direct simulations and verifications run one after the other, on one or alternately on several scenarios with edits in between, each yield the tree their scenario yields alone; "
     "trees returned earlier keep their contents.",
     ["histories", "schedules"], "all interleavings of analyses and edits on several scenarios in one process",
     TESTS + "each test builds a fresh scenario.",
     [SCPY, SIMPY, VERPY, ATREE], [("state shared between runs: agents, automata, caches, returned trees", SCPY)], T_SIM + "; " + T_VER,
     "histories of 3-5 runs; " + BOUND, ["Scenario.simulate", "Scenario.verify"])
prop("P23", "Direct simulation follows one execution of the hybrid automaton",
     "simulate_simple yields a single path whose states, switch times, destination modes and resets are those of the agents' automata, where each agent takes "
     "the transitions its decision logic returns at every sampling time; violated assertions are reported where they are violated.",
     ["programs", "inputs"], "all decision logics, agents, initial states and horizons",
     TESTS + "no test compares the path with the decision logic.",
     [SIMPY, SCPY], [("simulate_simple", SIMPY)], "TLA+ spec of direct simulation; TLC validates recorded paths (trace validation)", BOUND,
     ["Scenario.simulate_simple"])

prop("P06", "Every execution from the initial set lies in the verified tree",
     "Whatever single execution starts in the agents' initial sets, the verified tree covers it: at every sampling time its state lies in the tube of a node with its modes, "
     "every jump of an agent leads to a child of such a node that covers the rest, and an assertion it violates is reported by a node it is in. (With init_seg_length=1; explored "
     "up to the height limit or the first reported violation; executions with simultaneous jumps of two agents are not claimed; two ways in which executions get lost on purpose are known findings.)",
     ["programs", "inputs"], "all decision logics, all initial sets and all points in them, all horizons",
     TESTS + "no test compares simulations with the verification of the set they start in.",
     [VERPY, SIMPY, ATREE], [("tubes, windows and branching of verify_one against simulate_one_simple", VERPY)],
     "TLC model checks the product of the two TLA+ engine specs over enumerated scenario families; TLC checks recorded simulations against recorded verified trees", BOUND + "; two known findings",
     ["Scenario.verify", "Scenario.simulate"])

prop("P24", "Partitioned verification covers the whole guard window",
     "verify_partitioned splits the initial set on request, and at each jump the set passed in the guard window, into the requested number of equal parts along the requested variables; every part is "
     "carried through the reset and into the child, and nothing of the window gets lost. Nodes, modes, start times, tubes and assertion verdicts are those of these sets.",
     ["programs", "inputs"], "all decision logics, initial sets, numbers of parts and partitioned dimensions",
     TESTS + "no test uses verify_partitioned.",
     [VERPY, SCPY], [("verify_partitioned, apply_cont_var_updater, partitioning of sets", VERPY)], T_VER, "1-3 parts along 1-3 variables; " + BOUND,
     ["Scenario.verify_partitioned"])
prop("P26", "Fixed points are reported exactly when nothing new is reached",
     "fixed_points_fix says yes exactly if, per combination of modes, every joint set of states reached in the last step before the horizon lies in the union of those reached before; "
     "reach_at_fix returns exactly the tube segments within the given times.",
     ["inputs"], "all verified trees, all horizons and times", TESTS + "no test calls these functions on a tree with several branches.",
     ["verse/utils/fixed_points.py"], [("fixed_points_fix, reach_at_fix, contain_all_fix", "verse/utils/fixed_points.py")],
     "TLA+ spec of joint reach sets and their inclusion (TreeOps); TLC judges the recorded answers", "random trees up to 8 nodes with 1-2 agents and 1-2 variables on a small integer grid",
     ["fixed_points_fix", "reach_at_fix"])
prop("P27", "The agents that come with the library move as their models say",
     "The trajectory of a built-in agent starts at the given state and has exactly one row per time step up to the horizon; each row follows from the one before by the agent's model (constant "
     "velocity, timers, acceleration with its bounds, keeping to a line of the map); a trajectory continued from its own last row is the trajectory in one go; and the arguments stay unchanged.",
     ["inputs"], "all built-in agents with exact models, all initial states, modes, horizons and time steps",
     TESTS + "the demos do not look at single trajectories.",
     ["verse/agents/example_agent/car_agent.py", "verse/agents/example_agent/ball_agent.py", "verse/agents/example_agent/sign_agent.py", "verse/agents/base_agent.py"],
     [("TC_simulate of the example agents", "verse/agents/example_agent/"), ("steering towards a lane", "verse/agents/example_agent/car_agent.py")],
     "TLA+ step relations of the agents' models; TLC checks recorded trajectories row by row (trace validation)", "random initial states, modes, straight lanes, time steps 0.01-0.5 and up to 60 steps",
     ["BaseAgent.TC_simulate"])
prop("P28", "Guards over lane coordinates mean the coordinates of the position",
     "Longitudinal and lateral position queries on the map in a decision logic, on the agent's own track, on another agent's, or on a track reached by a lane change, have the value of the sensed position's coordinates on "
     "that lane in simulation; in verification they hold on a set if and only if they do for some coordinates of positions in it.",
     ["programs", "inputs"], "all decision logics with lane queries, all straight lanes along the axes, all positions and sets",
     TESTS + "guards on lane coordinates are only run, never compared.",
     [GUARD, SIMPY, VERPY, LANE], [("handling of map queries in guards on sets", GUARD), ("get_longitudinal_position, get_lateral_distance", LANE)], T_SIM + "; " + T_VER,
     "1-3 lanes along the axes; " + BOUND, ["LaneMap.get_longitudinal_position", "LaneMap.get_lateral_distance"])
prop("P29", "Lane coordinates are those of the nearest piece of the lane",
     "For a lane made of straight and circular pieces, the longitudinal and lateral position, heading and width of a point are those of the nearest piece that spans it, counted from the lane's start; converting coordinates to a "
     "position and back is the identity; and a guard over lane coordinates sees every piece that positions of a set can be on, and only those.",
     ["inputs"], "all lanes of straight and circular pieces, shared by several lanes or not, all positions and boxes near them",
     TESTS + "no test evaluates lane coordinates.",
     [LANE, "verse/map/lane.py", "verse/map/lane_segment.py", GUARD], [("get_longitudinal_position / get_lateral_distance / get_lane_heading", LANE), ("lane segments", "verse/map/lane_segment.py"),
     ("lane coordinates of sets", GUARD)],
     "TLA+ spec of lane geometry in integer arithmetic (Lanes); TLC judges recorded answers", "random lanes of 1-4 pieces in the plane; angles in whole degrees, tolerance 0.06 units", ["LaneMap"])
prop("P30", "Example maps permit exactly the lane changes their lanes allow",
     "In every road map that comes with the library, a lane change to a side is offered from the normal mode exactly where there is a lane on that side; it leads through a virtual lane of the lane being left and ends on that "
     "neighbour; h_exist agrees with h; and consecutive pieces of a lane join.",
     ["inputs"], "all example maps, tracks and modes (enumerated completely)", TESTS + "no test asks the maps for anything but what one demo needs.",
     ["verse/map/example_map/map_tacas.py", "verse/map/example_map/simple_map2.py", "verse/map/example_map/intersection.py", LANE], [("h and h_exist of the example maps", "verse/map/example_map/"), ("trans_func", LANE)],
     "TLA+ spec of lane-change tables over the maps' own geometry (MapTables); TLC judges the tables extracted from the real maps", "the 20 example maps, complete tables", ["LaneMap.h", "LaneMap.h_exist"])

NOT_APPLICABLE = []


def na(id, title, statement, over, text, why, files, mech, reason):
    assert len(title) <= 80, (id, len(title))
    NOT_APPLICABLE.append({"property": id, "reason": reason, "line": {
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": [], "hook_needed": None}}})



if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        for n in NOT_APPLICABLE:
            if "line" in n:
                f.write(json.dumps(n["line"]) + "\n")
    man = {"version": 1, "setup_cmd": "bin/setup", "checks": [
        {"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
         "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in P],
        "not_applicable": [{"property": n["property"], "reason": n["reason"]} for n in NOT_APPLICABLE]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
