From 4696c8b2fccb6d73e78c41e025bc6040e6a2e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 01/46] fix: keep the violating step in the trace of a
 simulation node cut by an assertion

---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 4c9f185..2fe0948 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -246,7 +246,7 @@ class Simulator:
         if not config.unsafe_continue and asserts != None:
             idx = transition_idx
             for agent in node.agent:
-                node.trace[agent] = node.trace[agent][:idx]
+                node.trace[agent] = node.trace[agent][: idx + 1]
             return (
                 node.id,
                 later,
-- 
2.43.0


From dfb43449c8ff03766139256ba9858bb1dfca4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 02/46] fix: simulation continues when the map rejects every
 guard hit at a step

---
 verse/analysis/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 2fe0948..b109838 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -770,7 +770,9 @@ class Simulator:
                             print("cond_veri", unparse(paths[0].cond_veri))
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
-                break
+                # The map may have rejected all of them, in which case the flow goes on
+                if transitions:
+                    break
         transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
         return None, transitions, idx
 
-- 
2.43.0


From 1f3f92496fedfa150ffd911ade5673c42542b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 03/46] fix: keep simulation branches that share a destination
 mode but differ in their resets

---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index b109838..248581e 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -773,7 +773,7 @@ class Simulator:
                 # The map may have rejected all of them, in which case the flow goes on
                 if transitions:
                     break
-        transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
+        transitions = {aid: dedup(v, lambda p: (p[1], tuple(p[2]))) for aid, v in transitions.items()}
         return None, transitions, idx
 
     @staticmethod
-- 
2.43.0


From 41e2468e1efa82e8889da38fb37cdbb458e4a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 04/46] fix: simulation checks the assertions of agents that
 have no transition

---
 verse/analysis/simulator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 248581e..842fa36 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -707,6 +707,10 @@ class Simulator:
                 agent, state_dict, track_map
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+        # Agents without any path can still have assertions to check
+        for agent_id, agent in node.agent.items():
+            if len(agent.decision_logic.args) != 0:
+                agent_guard_dict[agent_id]
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
@@ -803,6 +807,10 @@ class Simulator:
                 agent, state_dict, track_map
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
+        # Agents without any path can still have assertions to check
+        for agent_id, agent in node.agent.items():
+            if len(agent.decision_logic.args) != 0:
+                agent_guard_dict[agent_id]
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
-- 
2.43.0


From 5f894d941a75f638222b4b6573c77e1164820654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 05/46] fix: keep an assignment made identically in both
 branches of an if

---
 verse/parser/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 63be923..627acff 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -617,7 +617,10 @@ def merge_if_single(
 
     for var in set(true.keys()).union(set(false.keys())):
         var_true, var_false = true.get(var), false.get(var)
-        if ControllerIR.ir_eq(var_true, var_false):
+        # Nothing to merge, unless both branches made the same change to the variable
+        if ControllerIR.ir_eq(var_true, var_false) and (
+            var_true == None or ControllerIR.ir_eq(var_true, lookup(scope, var))
+        ):
             continue
         if var_true != None and var_false != None:
             assert isinstance(var_true, dict) == isinstance(var_false, dict)
-- 
2.43.0


From b9d160b40e731b8ddac475fd8e16d33dbac68678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 06/46] fix: accept branches that assign a variable one of its
 existing candidate values

---
 verse/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 627acff..772d592 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -679,7 +679,8 @@ def merge_if_val(
         false == None or len(false.elems) == 0,
     )
     if true_emp and false_emp:
-        raise Exception("no need for merge?")
+        # The branches only restore values that are already among the candidates
+        return orig
     elif true_emp:
         ret = merge_cond(ast.UnaryOp(ast.Not(), test), false)
     elif false_emp:
-- 
2.43.0


From e4a48eed6229daf6ad9a5c666ee4567d7598f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 07/46] fix: process the filters of a generator inside
 any/all/sum

---
 verse/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 772d592..f5b528b 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -930,7 +930,8 @@ def proc(node: ast.AST, env: Env) -> Any:
                     raise NotImplementedError(f"Reduction type {op} not supported in cond_trans")
 
             expr = proc(expr, env)
-            expr = cond_trans(expr, ast.BoolOp(ast.And(), ifs)) if len(ifs) > 0 else expr
+            ifs = [proc(c, env) for c in ifs]
+            expr = cond_trans(expr, merge_conds(ifs)) if len(ifs) > 0 else expr
             ret = Reduction(op, expr, target.id, proc(iter, env))
             env.pop()
             return ret
-- 
2.43.0


From e6126d7bbd8a0bf66fb312341aca17d3f9a308f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 08/46] fix: a lane change without an entry in the map is not
 permitted instead of a crash

---
 verse/map/lane_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/map/lane_map.py b/verse/map/lane_map.py
index 4cca517..0a14275 100644
--- a/verse/map/lane_map.py
+++ b/verse/map/lane_map.py
@@ -105,7 +105,8 @@ class LaneMap:
             agent_mode_dest = agent_mode_dest.name
         if self.h_dict == {}:
             return None
-        return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
+        # No entry: the lane change is not possible
+        return self.h_dict.get((lane_idx, agent_mode_src, agent_mode_dest))
 
     def h_exist(self, lane_idx, agent_mode_src, agent_mode_dest):
         if isinstance(lane_idx, Enum):
-- 
2.43.0


From c0799654863dc76b93d777f2b765069ee16288f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 09/46] fix: verification reports an assertion whose
 precondition holds on part of the reachable set

---
 verse/analysis/verifier.py | 67 ++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 09ebcbc..49be0ce 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1106,38 +1106,41 @@ class Verifier:
                 resets = defaultdict(list)
                 # Check safety conditions
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
-                    pre_expr = a.pre
-
-                    def eval_expr(expr):
-                        ge = GuardExpressionAst([copy.deepcopy(expr)])
-                        cont_var_updater = ge.parse_any_all_new(cont_vars, disc_vars, len_dict)
-                        Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
-                        sat = ge.evaluate_guard_disc(agent, disc_vars, cont_vars, track_map)
-                        if sat:
-                            sat = ge.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
-                            if sat:
-                                sat, contained = ge.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
-                                sat = sat and contained
-                        return sat
-
-                    if eval_expr(pre_expr):
-                        if not eval_expr(a.cond):
-                            if combine_len == 1:
-                                label = a.label if a.label != None else f"<assert {i}>"
-                                if config.print_level >= 1:
-                                    print(f'assert hit for {agent_id}: "{label}"')
-                                    print("index", idx)
-                                    print("start_time", node.start_time)
-                                asserts[agent_id].append(label)
-                            else:
-                                new_len = int(np.ceil(combine_len / reduction_rate))
-                                next_list = [
-                                    (i, min(i + new_len, end_idx), new_len)
-                                    for i in range(idx, end_idx, new_len)
-                                ]
-                                reduction_queue.extend(next_list[::-1])
-                                reduction_needed = True
-                                break
+                    # An assertion is violated as soon as some state of the set satisfies its
+                    # precondition but not its condition
+                    violation = GuardExpressionAst(
+                        [
+                            ast.BoolOp(
+                                op=ast.And(),
+                                values=[a.pre, ast.UnaryOp(op=ast.Not(), operand=a.cond)],
+                            )
+                        ]
+                    )
+                    cont_var_updater = violation.parse_any_all_new(cont_vars, disc_vars, len_dict)
+                    Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
+                    violated = violation.evaluate_guard_disc(agent, disc_vars, cont_vars, track_map)
+                    if violated:
+                        violated = violation.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
+                    if violated:
+                        violated, _ = violation.evaluate_guard_cont(agent, cont_vars, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS)
+
+                    if violated:
+                        if combine_len == 1:
+                            label = a.label if a.label != None else f"<assert {i}>"
+                            if config.print_level >= 1:
+                                print(f'assert hit for {agent_id}: "{label}"')
+                                print("index", idx)
+                                print("start_time", node.start_time)
+                            asserts[agent_id].append(label)
+                        else:
+                            new_len = int(np.ceil(combine_len / reduction_rate))
+                            next_list = [
+                                (i, min(i + new_len, end_idx), new_len)
+                                for i in range(idx, end_idx, new_len)
+                            ]
+                            reduction_queue.extend(next_list[::-1])
+                            reduction_needed = True
+                            break
                 if reduction_needed:
                     break
                 if agent_id in asserts:
-- 
2.43.0


From 26d19f65174233f597249c5cf154785c0b2800f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 10/46] fix: resets in verification substitute whole variable
 names and negative values correctly

---
 verse/analysis/verifier.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 49be0ce..e3cb703 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -6,6 +6,7 @@ from typing import Dict, List, Optional, Tuple
 import numpy as np
 import warnings
 import ast
+import re
 import ray, time
 from verse.parser import unparse
 
@@ -1323,7 +1324,7 @@ class Verifier:
                     tmp = expr.split(".")
                     if "map" in tmp[0]:
                         for var in disc_var_dict:
-                            expr = expr.replace(var, f"'{disc_var_dict[var]}'")
+                            expr = substitute_var(expr, var, f"'{disc_var_dict[var]}'")
                         res = eval(expr)
                         if not isinstance(res, list):
                             res = [res]
@@ -1352,7 +1353,7 @@ class Verifier:
 
                 symbols = []
                 for var in cont_var_dict:
-                    if var in expr:
+                    if substitute_var(expr, var, "") != expr:
                         symbols.append(var)
 
                 # TODO: Implement this function
@@ -1368,7 +1369,7 @@ class Verifier:
                     val_dict = {}
                     tmp = copy.deepcopy(expr)
                     for symbol_idx, symbol in enumerate(symbols):
-                        tmp = tmp.replace(symbol, str(comb[symbol_idx]))
+                        tmp = substitute_var(tmp, symbol, f"({comb[symbol_idx]})")
                     res = eval(tmp, {}, val_dict)
                     lb = min(lb, res)
                     ub = max(ub, res)
@@ -1427,7 +1428,7 @@ class Verifier:
                     tmp = expr.split(".")
                     if "map" in tmp[0]:
                         for var in disc_var_dict:
-                            expr = expr.replace(var, f"'{disc_var_dict[var]}'")
+                            expr = substitute_var(expr, var, f"'{disc_var_dict[var]}'")
                         res = eval(expr)
                         if not isinstance(res, list):
                             res = [res]
@@ -1475,8 +1476,7 @@ class Verifier:
                 val_dict = {}
                 tmp_exp = copy.deepcopy(expr_list[idx])
                 for i in range(0, len(state)):
-                    if statevec[i] in tmp_exp:
-                        tmp_exp = tmp_exp.replace(statevec[i], str(state[i]))
+                    tmp_exp = substitute_var(tmp_exp, statevec[i], f"({state[i]})")
                 #print(tmp_exp)
                 result = eval(tmp_exp, {}, val_dict)
                 for i in range(0, len(state)):
@@ -1875,6 +1875,14 @@ class Verifier:
             unioned.extend([lb.tolist(), ub.tolist()])
         return unioned
 
+def substitute_var(expr: str, var: str, value: str) -> str:
+    """
+    Replace every occurrence of the variable `var` in `expr`, leaving alone variables whose name
+    merely contains it (`ego.x` in `ego.x1`)
+    """
+    return re.sub(r"(?<![\w.])" + re.escape(var) + r"(?![\w.])", lambda _: value, expr)
+
+
 def combine_rect(trace):
     """
     Combine a reachtube into one rect
-- 
2.43.0


From 0a60c5d381be148441222242baf95a27d73bbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 11/46] fix: verification keeps the transitions of different
 guards and of separate hit windows apart

---
 verse/analysis/verifier.py | 70 ++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index e3cb703..0da80f9 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -990,7 +990,9 @@ class Verifier:
                             agent, state_dict, track_map, False
                         )
                         reset = (path.var, path.val_veri)
-                        guard_expression = GuardExpressionAst([path.cond_veri])
+                        guard_expression = GuardExpressionAst(
+                            [path.cond_veri], len(paths) + len(cached_guards[agent_id])
+                        )
 
                         cont_var_updater = guard_expression.parse_any_all_new(
                             cont_var_dict_template, discrete_variable_dict, length_dict
@@ -1015,7 +1017,7 @@ class Verifier:
         # for aid, trace in node.trace.items():
         #     if len(trace) < 2:
         #         pp(("weird state", aid, trace))
-        for agent, path in paths:
+        for path_idx, (agent, path) in enumerate(paths):
             if len(agent.decision_logic.args) == 0:
                 continue
             agent_id = agent.id
@@ -1031,7 +1033,7 @@ class Verifier:
             cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(agent, state_dict, track_map, False)
             # TODO-PARSER: Get equivalent for this function
             # Construct the guard expression
-            guard_expression = GuardExpressionAst([path.cond_veri])
+            guard_expression = GuardExpressionAst([path.cond_veri], path_idx)
 
             cont_var_updater = guard_expression.parse_any_all_new(
                 cont_var_dict_template, discrete_variable_dict, length_dict
@@ -1252,32 +1254,42 @@ class Verifier:
         for agent in reset_dict:
             for reset_idx in reset_dict[agent]:
                 for dest in reset_dict[agent][reset_idx]:
-                    reset_data = tuple(map(list, zip(*reset_dict[agent][reset_idx][dest])))
-                    # paths = [r[-1] for r in reset_data[-1]]
-                    paths = [r[-1] for r in reset_data[-1][0]]
-                    transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
-                    src_mode = node.get_mode(agent, node.mode[agent]) # this is explicitly the AgentMode mode
-                    src_track = node.get_track(agent, node.mode[agent])
-                    dest_mode = node.get_mode(agent, dest)
-                    dest_track = node.get_track(agent, dest)
-                    map_modes = [[src_mode, src_track, dest_mode, dest_track]]
-
-                    # if a map transition is being initiated but the map does not permit the transition, don't add to transition list
-                    # a map transition for now is defined as any transition that changes either the trackmode or agentmode
-                    # could potentially change to be any transition that changes both trackmode and agentmode 
-                    if all(map_mode is not None for map_mode in map_modes) and (src_mode!=dest_mode or src_track!=dest_track) and dest_track != track_map.h(src_track, src_mode, dest_mode): 
-                        continue
-                    else:
-                        if config.print_level >= 2:
-                            print(count)
-                        count += 1
-                        if config.print_level >= 2:
-                            print(agent, src_mode, src_track, "->", dest_mode, dest_track)
-                            print("start_time: ", node.start_time)
-                            print("cond_veri", unparse(paths[0].cond_veri))
-                            print("val_veri", unparse(paths[0].val_veri))
-                        possible_transitions.append(transition)
-                        # print(transition[4])
+                    # A transition covers consecutive indices, one initial set for each; when the
+                    # guard stops being hit and is hit again later, that is another transition
+                    hits_runs = []
+                    for hit in reset_dict[agent][reset_idx][dest]:
+                        if not hits_runs or hit[1] != hits_runs[-1][-1][1] + 1:
+                            hits_runs.append([])
+                        hits_runs[-1].append(hit)
+                    for hits_run in hits_runs:
+                        reset_data = tuple(map(list, zip(*hits_run)))
+                        # paths = [r[-1] for r in reset_data[-1]]
+                        paths = [r[-1] for r in reset_data[-1][0]]
+                        transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
+                        src_mode = node.get_mode(agent, node.mode[agent]) # this is explicitly the AgentMode mode
+                        src_track = node.get_track(agent, node.mode[agent])
+                        dest_mode = node.get_mode(agent, dest)
+                        dest_track = node.get_track(agent, dest)
+                        map_modes = [[src_mode, src_track, dest_mode, dest_track]]
+
+                        # if a map transition is being initiated but the map does not permit the transition, don't add to transition list
+                        # a map transition for now is defined as any transition that changes either the trackmode or agentmode
+                        # could potentially change to be any transition that changes both trackmode and agentmode 
+                        if all(map_mode is not None for map_mode in map_modes) and (src_mode!=dest_mode or src_track!=dest_track) and dest_track != track_map.h(src_track, src_mode, dest_mode): 
+                            continue
+                        else:
+                            if config.print_level >= 2:
+                                print(count)
+                            count += 1
+                            if config.print_level >= 2:
+                                print(agent, src_mode, src_track, "->", dest_mode, dest_track)
+                                print("start_time: ", node.start_time)
+                                print("cond_veri", unparse(paths[0].cond_veri))
+                                print("val_veri", unparse(paths[0].val_veri))
+                            # different guards may cause the very same transition
+                            if not any(t[:5] == transition[:5] for t in possible_transitions):
+                                possible_transitions.append(transition)
+                            # print(transition[4])
         # Return result
         return None, possible_transitions + cached_trans
 
-- 
2.43.0


From 1783298ff7ab4d3a7c83387121636d906019bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 12/46] fix: guards with map calls tell variables from longer
 names that contain them

---
 verse/analysis/verifier.py | 11 +----------
 verse/automaton/guard.py   |  6 +++---
 verse/utils/utils.py       | 11 +++++++++++
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 0da80f9..0e3a697 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -6,7 +6,6 @@ from typing import Dict, List, Optional, Tuple
 import numpy as np
 import warnings
 import ast
-import re
 import ray, time
 from verse.parser import unparse
 
@@ -20,7 +19,7 @@ from verse.analysis.incremental import (
     combine_all,
 )
 from verse.analysis.incremental import CachedRTTrans, combine_all, reach_trans_suit
-from verse.utils.utils import dedup
+from verse.utils.utils import dedup, substitute_var
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import find, ModePath, unparse
 from verse.agents.base_agent import BaseAgent
@@ -1887,14 +1886,6 @@ class Verifier:
             unioned.extend([lb.tolist(), ub.tolist()])
         return unioned
 
-def substitute_var(expr: str, var: str, value: str) -> str:
-    """
-    Replace every occurrence of the variable `var` in `expr`, leaving alone variables whose name
-    merely contains it (`ego.x` in `ego.x1`)
-    """
-    return re.sub(r"(?<![\w.])" + re.escape(var) + r"(?![\w.])", lambda _: value, expr)
-
-
 def combine_rect(trace):
     """
     Combine a reachtube into one rect
diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 953eee8..1b1a5cf 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -823,8 +823,8 @@ class GuardExpressionAst:
             root.args = new_args_list
             expr = unparse(root)
             # Check if the root is a function
-            if any([var in expr for var in disc_var_dict]) and all(
-                [var not in expr for var in cont_var_dict]
+            if any([mentions_var(expr, var) for var in disc_var_dict]) and all(
+                [not mentions_var(expr, var) for var in cont_var_dict]
             ):
                 # tmp = re.split('\(|\)',expr)
                 # while "" in tmp:
@@ -834,7 +834,7 @@ class GuardExpressionAst:
                 #         expr = expr.replace(arg,f'"{disc_var_dict[arg]}"')
                 # res = eval(expr)
                 for arg in disc_var_dict:
-                    expr = expr.replace(arg, f'"{disc_var_dict[arg]}"')
+                    expr = substitute_var(expr, arg, f'"{disc_var_dict[arg]}"')
                 res = eval(expr)
                 if isinstance(res, bool):
                     if res:
diff --git a/verse/utils/utils.py b/verse/utils/utils.py
index c7ad013..b45385f 100644
--- a/verse/utils/utils.py
+++ b/verse/utils/utils.py
@@ -1,6 +1,7 @@
 import copy
 import importlib
 import itertools
+import re
 from typing import Any, Tuple, Dict, Callable, List, Optional, Type, TypeVar, Union, Sequence
 
 import numpy as np
@@ -435,3 +436,13 @@ def dedup(l: List[T], f: Callable[[T], Any] = (lambda a: a)) -> List[T]:
         else:
             o.append((i, k))
     return [i for i, _ in o]
+
+
+def mentions_var(expr: str, var: str) -> bool:
+    """Whether the variable `var` occurs in `expr`, not just as part of a longer name"""
+    return re.search(r"(?<![\w.])" + re.escape(var) + r"(?![\w.])", expr) is not None
+
+
+def substitute_var(expr: str, var: str, value: str) -> str:
+    """Replace every occurrence of the variable `var` in `expr`, leaving alone longer names"""
+    return re.sub(r"(?<![\w.])" + re.escape(var) + r"(?![\w.])", lambda _: value, expr)
-- 
2.43.0


From 28ca37d0700fc270a1acfda18439aa695ee92ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 13/46] fix: verification accepts guards that sum over several
 agents

---
 verse/automaton/guard.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 1b1a5cf..98e653d 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -419,7 +419,16 @@ class GuardExpressionAst:
             )
             return True, root
         elif isinstance(root, ast.Call):
-            if isinstance(root.func, ast.Attribute):
+            if isinstance(root.func, ast.Name) and root.func.id == "sum":
+                # An unrolled sum over a list of agents: a plain continuous expression
+                for elts in root.args:
+                    if isinstance(elts, ast.List):
+                        for i, elt in enumerate(elts.elts):
+                            _, elts.elts[i] = self._evaluate_guard_hybrid(
+                                elt, agent, disc_var_dict, cont_var_dict, track_map, agent_vars
+                            )
+                return True, root
+            elif isinstance(root.func, ast.Attribute):
                 func = root.func
                 if "map" in func.value.id:
                     if func.attr == "get_lateral_distance":
-- 
2.43.0


From 603e7fd321ecc92e80fc33b5aed2bf673e411735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 14/46] fix: verification does not count transitions the map
 rejects as guard hits

---
 verse/analysis/verifier.py | 102 ++++++++++++++++++++++---------------
 1 file changed, 62 insertions(+), 40 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 0e3a697..fa96f75 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1051,6 +1051,9 @@ class Verifier:
         # pp(("trace len", trace_length, {a: len(t) for a, t in node.trace.items()}))
         guard_hits = []
         guard_hit = False
+        reset_func = Verifier.apply_reset
+        if config.reachability_method == ReachabilityMethod.STAR_SETS:
+            reset_func = Verifier.apply_reset_stars
         reduction_rate = 10
         reduction_queue = []
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
@@ -1106,6 +1109,7 @@ class Verifier:
                 #     pp(("weird state", agent_id, agent_state))
                 cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
                 resets = defaultdict(list)
+                contained_paths = []
                 # Check safety conditions
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
                     # An assertion is violated as soon as some state of the set satisfies its
@@ -1169,8 +1173,8 @@ class Verifier:
                     guard_satisfied, is_contained = one_step_guard.evaluate_guard_cont(
                         agent, new_cont_var_dict, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS
                     )
-                    if combine_len == 1:
-                        any_contained = any_contained or is_contained
+                    if is_contained:
+                        contained_paths.append(path)
                     # TODO: Can we also store the cont and disc var dict so we don't have to call sensor again?
                     if guard_satisfied and combine_len == 1:
                         reset_expr = ResetExpression((path.var, path.val_veri))
@@ -1204,8 +1208,34 @@ class Verifier:
                         reset_idx = []
                         for reset_info in combined_reset_list[i]:
                             reset_idx.append(reset_info[3])
+                        dest_list, reset_rect = reset_func(
+                            agent, combined_reset_list[i], state_dict, track_map
+                        )
+                        if not dest_list:
+                            warnings.warn(
+                                f"Guard hit for mode {node.mode[agent_id]} for agent {agent_id} without available next mode"
+                            )
+                            dest_list.append(None)
+                        # A transition that the map does not permit is no hit
+                        dest_list = [
+                            dest
+                            for dest in dest_list
+                            if Verifier.map_permits(node, agent_id, dest, track_map)
+                        ]
+                        if not dest_list:
+                            continue
+                        if any(r[-1] is p for r in combined_reset_list[i] for p in contained_paths):
+                            any_contained = True
                         # a list of reset expression
-                        hits.append((agent_id, tuple(reset_idx), combined_reset_list[i]))
+                        hits.append(
+                            (
+                                agent_id,
+                                tuple(reset_idx),
+                                combined_reset_list[i],
+                                dest_list,
+                                reset_rect,
+                            )
+                        )
 
             if reduction_needed or combine_len > 1:
                 continue
@@ -1218,24 +1248,12 @@ class Verifier:
                 break
             if any_contained:
                 break
-        reset_func = Verifier.apply_reset
-        if config.reachability_method == ReachabilityMethod.STAR_SETS:
-            reset_func = Verifier.apply_reset_stars
         reset_dict = {}  # defaultdict(lambda: defaultdict(list))
         for hits, all_agent_state, hit_idx in guard_hits:
-            for agent_id, reset_idx, reset_list in hits:
-                # TODO: Need to change this function to handle the new reset expression and then I am done
-                dest_list, reset_rect = reset_func(
-                    node.agent[agent_id], reset_list, all_agent_state, track_map
-                )
+            for agent_id, reset_idx, reset_list, dest_list, reset_rect in hits:
                 # pp(("dests", dest_list, *[astunparser.unparse(reset[-1].val_veri) for reset in reset_list]))
                 if agent_id not in reset_dict:
                     reset_dict[agent_id] = {}
-                if not dest_list:
-                    warnings.warn(
-                        f"Guard hit for mode {node.mode[agent_id]} for agent {agent_id} without available next mode"
-                    )
-                    dest_list.append(None)
                 if reset_idx not in reset_dict[agent_id]:
                     reset_dict[agent_id][reset_idx] = {}
                 for dest in dest_list:
@@ -1265,33 +1283,37 @@ class Verifier:
                         # paths = [r[-1] for r in reset_data[-1]]
                         paths = [r[-1] for r in reset_data[-1][0]]
                         transition = (agent, node.mode[agent], dest, *reset_data[:-1], paths)
-                        src_mode = node.get_mode(agent, node.mode[agent]) # this is explicitly the AgentMode mode
-                        src_track = node.get_track(agent, node.mode[agent])
-                        dest_mode = node.get_mode(agent, dest)
-                        dest_track = node.get_track(agent, dest)
-                        map_modes = [[src_mode, src_track, dest_mode, dest_track]]
-
-                        # if a map transition is being initiated but the map does not permit the transition, don't add to transition list
-                        # a map transition for now is defined as any transition that changes either the trackmode or agentmode
-                        # could potentially change to be any transition that changes both trackmode and agentmode 
-                        if all(map_mode is not None for map_mode in map_modes) and (src_mode!=dest_mode or src_track!=dest_track) and dest_track != track_map.h(src_track, src_mode, dest_mode): 
-                            continue
-                        else:
-                            if config.print_level >= 2:
-                                print(count)
-                            count += 1
-                            if config.print_level >= 2:
-                                print(agent, src_mode, src_track, "->", dest_mode, dest_track)
-                                print("start_time: ", node.start_time)
-                                print("cond_veri", unparse(paths[0].cond_veri))
-                                print("val_veri", unparse(paths[0].val_veri))
-                            # different guards may cause the very same transition
-                            if not any(t[:5] == transition[:5] for t in possible_transitions):
-                                possible_transitions.append(transition)
-                            # print(transition[4])
+                        if config.print_level >= 2:
+                            print(count)
+                        count += 1
+                        if config.print_level >= 2:
+                            print(agent, node.mode[agent], "->", dest)
+                            print("start_time: ", node.start_time)
+                            print("cond_veri", unparse(paths[0].cond_veri))
+                            print("val_veri", unparse(paths[0].val_veri))
+                        # different guards may cause the very same transition
+                        if not any(t[:5] == transition[:5] for t in possible_transitions):
+                            possible_transitions.append(transition)
         # Return result
         return None, possible_transitions + cached_trans
 
+    @staticmethod
+    def map_permits(node: AnalysisTreeNode, agent_id, dest, track_map) -> bool:
+        """
+        Whether the map permits the transition of the agent to the modes `dest`
+        A map transition for now is defined as any transition that changes either the trackmode or agentmode;
+        could potentially change to be any transition that changes both trackmode and agentmode
+        """
+        if dest is None:
+            return True
+        src_mode = node.get_mode(agent_id, node.mode[agent_id])  # this is explicitly the AgentMode mode
+        src_track = node.get_track(agent_id, node.mode[agent_id])
+        dest_mode = node.get_mode(agent_id, dest)
+        dest_track = node.get_track(agent_id, dest)
+        if src_mode == dest_mode and src_track == dest_track:
+            return True
+        return dest_track == track_map.h(src_track, src_mode, dest_mode)
+
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
         for variable in updater:
-- 
2.43.0


From 40339bac1e9c347936f329a4c66ade026a51dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 15/46] fix: compare simulation trees as such and trees with
 unexplored or unequal branches in contains

---
 verse/analysis/analysis_tree.py | 119 ++++++++++----------------------
 1 file changed, 36 insertions(+), 83 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 41e5fa7..38db773 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -1,5 +1,4 @@
 from enum import Enum, auto
-from functools import reduce
 from typing import Any, Iterable, List, Dict, Optional, Sequence, TypeVar, Literal
 import json
 import numpy.typing as nptyp, numpy as np, portion
@@ -335,14 +334,21 @@ class AnalysisTree:
             or (not strict and cur_agents.issuperset(other_agents))
         ):
             return False
-        if types[0] == "simtrace":  # Simulation
+        if types[0] == AnalysisTreeNodeType.SIM_TRACE:  # Simulation
             if len(self.nodes) != len(other.nodes):
                 return False
 
             def sim_seg_contains(a: Dict[str, TraceType], b: Dict[str, TraceType]) -> bool:
+                # Nodes that were not simulated, e.g. those at the maximum height, have no trace
                 return all(
-                    a[aid].shape == b[aid].shape
-                    and bool(np.all(np.abs(a[aid][:, 1:] - b[aid][:, 1:]) < tol))
+                    (aid in a) == (aid in b)
+                    and (
+                        aid not in a
+                        or (
+                            a[aid].shape == b[aid].shape
+                            and bool(np.all(np.abs(a[aid][:, 1:] - b[aid][:, 1:]) < tol))
+                        )
+                    )
                     for aid in min_agents
                 )
 
@@ -364,89 +370,36 @@ class AnalysisTree:
 
             return sim_node_contains(self.root, other.root)
         else:  # Reachability
-            cont_num = len(other.nodes[0].trace[min_agents[0]][0])
-
-            def collect_ranges(
-                n: AnalysisTreeNode,
-            ) -> Dict[str, List[List[portion.Interval]]]:
-                trace_len = len(n.trace[min_agents[0]])
-                cur = {
-                    aid: [
-                        [
-                            portion.closed(n.trace[aid][i][j], n.trace[aid][i + 1][j])
-                            for j in range(cont_num)
-                        ]
-                        for i in range(0, trace_len, 2)
-                    ]
-                    for aid in min_agents
-                }
-                if len(n.child) == 0:
-                    return {aid: cur[aid] for aid in other_agents}
-                else:
-                    children = [collect_ranges(c) for c in n.child]
-                    child_num = len(children)
-                    time_step = round(
-                        n.trace[min_agents[0]][-1][0] - n.trace[min_agents[0]][-2][0],
-                        10,
-                    )
-                    start_time_list = [c.start_time for c in n.child]
-                    min_start_time = min(start_time_list)
-                    bias_list = [
-                        round((c.start_time - min_start_time) / time_step) for c in n.child
-                    ]
-                    trace_len_list = [len(children[i][min_agents[0]]) for i in range(child_num)]
-                    trace_len = max(trace_len_list)
-                    combined = {
-                        aid: [
-                            [
-                                reduce(
-                                    portion.Interval.union,
-                                    (
-                                        children[k][aid][i - bias_list[k]][j]
-                                        if i - bias_list[k] >= 0
-                                        and i - bias_list[k] < trace_len_list[k]
-                                        else portion.empty()
-                                        for k in range(child_num)
-                                    ),
-                                )
-                                for j in range(cont_num)
-                            ]
-                            for i in range(trace_len)
-                        ]
-                        for aid in other_agents
-                    }
-                    overlap_len = round(
-                        (n.trace[min_agents[0]][-1][0] - min_start_time) / time_step
-                    )
-                    overlap = {
-                        aid: [
-                            [
-                                portion.Interval.union(
-                                    cur[aid][i][j], combined[aid][overlap_len + i][j]
-                                )
-                                for j in range(cont_num)
-                            ]
-                            for i in range(-overlap_len, 0)
-                        ]
-                        for aid in other_agents
-                    }
-                    return {
-                        aid: cur[aid][:-overlap_len] + overlap[aid] + combined[aid][overlap_len:]
-                        for aid in other_agents
-                    }
-
-            this_tree, other_tree = collect_ranges(self.root), collect_ranges(other.root)
-            total_len = len(other_tree[min_agents[0]])
-            assert total_len <= len(this_tree[min_agents[0]])
+
+            def collect_ranges(tree: AnalysisTree) -> Dict[str, Dict[int, List[portion.Interval]]]:
+                """Union of the reachable sets of all nodes, per agent and time step"""
+                ranges = {aid: {} for aid in min_agents}
+                for n in tree.nodes:
+                    for aid in min_agents:
+                        # Nodes that were not explored, e.g. those at the maximum height, do not
+                        # have traces for all agents
+                        trace = n.trace.get(aid, [])
+                        for lower, upper in zip(trace[::2], trace[1::2]):
+                            step = round(lower[0] / (upper[0] - lower[0]))
+                            cur = [portion.closed(l, u) for l, u in zip(lower, upper)]
+                            if step in ranges[aid]:
+                                cur = [a.union(b) for a, b in zip(ranges[aid][step], cur)]
+                            ranges[aid][step] = cur
+                return ranges
+
+            this_tree, other_tree = collect_ranges(self), collect_ranges(other)
             # bloat and containment
             return all(
-                other_tree[aid][i][j]
-                in this_tree[aid][i][j].apply(
-                    lambda x: x.replace(lower=lambda v: v - tol, upper=lambda v: v + tol)
+                step in this_tree[aid]
+                and all(
+                    b
+                    in a.apply(
+                        lambda x: x.replace(lower=lambda v: v - tol, upper=lambda v: v + tol)
+                    )
+                    for a, b in zip(this_tree[aid][step], ranges)
                 )
                 for aid in other_agents
-                for i in range(total_len)
-                for j in range(cont_num)
+                for step, ranges in other_tree[aid].items()
             )
 
     @staticmethod
-- 
2.43.0


From 223a2dcf9a32b57a9dcdf071882133cb48a8b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 16/46] fix: parallel simulation keeps the assertion violations
 of nodes

---
 verse/analysis/simulator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 842fa36..134cb0b 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -204,7 +204,7 @@ class Simulator:
         later: int,
         remain_time: float,
         consts: SimConsts,
-    ) -> Tuple[int, int, List[AnalysisTreeNode], Dict[str, TraceType], list]:
+    ) -> Tuple[int, int, List[AnalysisTreeNode], Dict[str, TraceType], Optional[Dict], list]:
         if config.print_level >= 1:
             print("=============================================================")
             print(f"node {node.id} start: {node.start_time}")
@@ -252,6 +252,7 @@ class Simulator:
                 later,
                 [], 
                 node.trace,
+                asserts,
                 cache_updates
             )
 
@@ -267,7 +268,7 @@ class Simulator:
                 node.trace[agent_idx] = node.trace[agent_idx][: transition_idx + 1]
 
         if asserts != None:  # FIXME
-            return (node.id, later, [], node.trace, cache_updates)
+            return (node.id, later, [], node.trace, asserts, cache_updates)
             # print(transition_idx)
             # pp({a: len(t) for a, t in node.trace.items()})
         else:
@@ -288,7 +289,7 @@ class Simulator:
                         )
                 # print(red("no trans"))
                 # print(f"node {node.id} dur {timeit.default_timer() - t}")
-                return (node.id, later, [], node.trace, cache_updates)
+                return (node.id, later, [], node.trace, asserts, cache_updates)
 
             transit_agents = transitions.keys()
             # pp(("transit agents", transit_agents))
@@ -347,14 +348,15 @@ class Simulator:
                 next_nodes.append(tmp)
             # print(len(next_nodes))
             # print(f"node {node.id} dur {timeit.default_timer() - t}")
-            return (node.id, later, next_nodes, node.trace, cache_updates)
+            return (node.id, later, next_nodes, node.trace, asserts, cache_updates)
 
-    def proc_result(self, id, later, next_nodes, traces, cache_updates):
+    def proc_result(self, id, later, next_nodes, traces, assert_hits, cache_updates):
         t = timeit.default_timer()
         # print("got id:", id)
         done_node = self.nodes[id]
         done_node.child = next_nodes
         done_node.trace = traces
+        done_node.assert_hits = assert_hits
         last_id = self.nodes[-1].id
         # assert max(n.id for n in self.nodes) == last_id
         for i, node in enumerate(next_nodes):
@@ -489,8 +491,8 @@ class Simulator:
                 break
             if wait:
                 [res], remaining = ray.wait(self.result_refs)
-                id, later, next_nodes, traces, cache_updates = ray.get(res)
-                self.proc_result(id, later, next_nodes, traces, cache_updates)
+                id, later, next_nodes, traces, assert_hits, cache_updates = ray.get(res)
+                self.proc_result(id, later, next_nodes, traces, assert_hits, cache_updates)
                 self.result_refs = remaining
         # print("cached", self.num_cached)
         # pp(self.cache.get_cached_inits(3))
-- 
2.43.0


From 4d79abd8e22eaf129048cde44e448401b4cb17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 17/46] fix: number the nodes of directly simulated trees so
 that they can be saved

---
 verse/analysis/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 134cb0b..cb60761 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -516,6 +516,7 @@ class Simulator:
 
         simulation_queue = []
         simulation_queue.append(root)
+        num_nodes = 1
         # Perform BFS through the simulation tree to loop through all possible transitions
         while simulation_queue != []:
             node: AnalysisTreeNode = simulation_queue.pop(0)
@@ -609,8 +610,9 @@ class Simulator:
                         init=next_node_init,
                         mode=next_node_mode,
                         start_time=next_node_start_time,
-                        id=-1,
+                        id=num_nodes,
                     )
+                    num_nodes += 1
                     node.child.append(tmp)
                     simulation_queue.append(tmp)
                 # print(red("end sim"))
-- 
2.43.0


From 5f60a2ff2d8c094adeec0cd0879f00e672344566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 18/46] fix: verification takes the initial sets given to the
 agents like simulation does

---
 verse/scenario/scenario.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index 69e4cdb..ff7ceb1 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -337,6 +337,7 @@ class Scenario:
     def verify(self, time_horizon, time_step, max_height=None, params={}) -> AnalysisTree:
         '''Compute the set of reachable states, starting from a set of initial states states.'''
         _check_ray_init(self.config.parallel)
+        self._get_init_from_agent()
         self._check_init()
         root = AnalysisTreeNode.root_from_inits(
             init={
@@ -384,6 +385,7 @@ class Scenario:
         :return: AnalysisTree with branching preserved.
         '''
         _check_ray_init(self.config.parallel)
+        self._get_init_from_agent()
         self._check_init()
         root = AnalysisTreeNode.root_from_inits(
             init={
-- 
2.43.0


From 8c8945d87e418f55583b7a06d8a6292fb734cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 19/46] fix: accept a single initial point given to the
 constructor of an agent

---
 verse/scenario/scenario.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index ff7ceb1..35a1148 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -96,7 +96,11 @@ class Scenario:
             self._update_agent_lane_mode(agent, self.map)
         self.agent_dict[agent.id] = agent
         if hasattr(agent, "init_cont") and agent.init_cont is not None:
-            self.init_dict[agent.id] = copy.deepcopy(agent.init_cont)
+            init = copy.deepcopy(agent.init_cont)
+            # A single point stands for both ends of the initial set
+            if isinstance(init, list) and len(init) == 1:
+                init = init + init
+            self.init_dict[agent.id] = init
         if hasattr(agent, "init_disc") and agent.init_disc is not None:
             self.init_mode_dict[agent.id] = copy.deepcopy(agent.init_disc)
 
-- 
2.43.0


From b3dd937e171b626fee0b2d828af57a3a5baccb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 20/46] fix: unsafe_continue goes on exploring a node past a
 violated assertion

---
 verse/analysis/simulator.py | 32 +++++++++++++++++++++-----------
 verse/analysis/verifier.py  | 19 +++++++++++++------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index cb60761..9af5c84 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -75,7 +75,9 @@ def pack_env(
     return env
 
 
-def check_sim_transitions(agent: BaseAgent, guards: List[Tuple], cont, disc, map, state, mode):
+def check_sim_transitions(
+    agent: BaseAgent, guards: List[Tuple], cont, disc, map, state, mode, unsafe_continue=False
+):
     asserts = []
     satisfied_guard = []
     agent_id = agent.id
@@ -90,8 +92,9 @@ def check_sim_transitions(agent: BaseAgent, guards: List[Tuple], cont, disc, map
                 del packed_env["__builtins__"]
                 print(f'assert hit for {agent_id}: "{assertion.label}" @ {packed_env}')
                 asserts.append(assertion.label)
-    if len(asserts) != 0:
+    if len(asserts) != 0 and not unsafe_continue:
         return asserts, satisfied_guard
+    asserts = asserts or None
 
     all_resets = defaultdict(list)
     env = pack_env(agent, ego_ty_name, cont, disc, map)  # TODO: diff disc -> disc_vars?
@@ -109,7 +112,7 @@ def check_sim_transitions(agent: BaseAgent, guards: List[Tuple], cont, disc, map
         iter_list.append(zip(range(len(vals)), paths))
     pos_list = list(itertools.product(*iter_list))
     if len(pos_list) == 1 and pos_list[0] == ():
-        return None, satisfied_guard
+        return asserts, satisfied_guard
     for pos in pos_list:
         next_init = copy.deepcopy(state)
         dest = copy.deepcopy(mode)
@@ -142,7 +145,7 @@ def check_sim_transitions(agent: BaseAgent, guards: List[Tuple], cont, disc, map
                 else:
                     pure_dest.append(d)
             satisfied_guard.append((agent_id, pure_dest, next_init, paths))
-    return None, satisfied_guard
+    return asserts, satisfied_guard
 
 
 def convertStrToEnum(inp, agent: BaseAgent, dl):
@@ -238,7 +241,8 @@ class Simulator:
                 new_cache, paths_to_sim = to_simulate(old_node.agent, node.agent, cached_segments)
 
         asserts, transitions, transition_idx = Simulator.get_transition_simulate(
-            new_cache, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level
+            new_cache, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level,
+            config.unsafe_continue,
         )
         node.assert_hits = asserts
         
@@ -267,7 +271,7 @@ class Simulator:
                 truncated_trace[agent_idx] = node.trace[agent_idx][transition_idx:]
                 node.trace[agent_idx] = node.trace[agent_idx][: transition_idx + 1]
 
-        if asserts != None:  # FIXME
+        if asserts != None and not transitions:
             return (node.id, later, [], node.trace, asserts, cache_updates)
             # print(transition_idx)
             # pp({a: len(t) for a, t in node.trace.items()})
@@ -631,7 +635,8 @@ class Simulator:
         track_map: LaneMap,
         sensor,
         agent_dict,
-        print_level: int
+        print_level: int,
+        unsafe_continue: bool = False,
     ) -> Tuple[
         Optional[Dict[str, List[str]]],
         Optional[Dict[str, List[Tuple[str, List[str], List[float]]]]],
@@ -718,9 +723,10 @@ class Simulator:
 
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
+        passed_asserts = {}  # violations that do not stop the exploration
         for idx in range(trace_length):
             if min_trans_ind != None and idx >= min_trans_ind:
-                return None, dict(cached_trans), min_trans_ind
+                return passed_asserts or None, dict(cached_trans), min_trans_ind
             satisfied_guard = []
             all_asserts = defaultdict(list)
             for agent_id in agent_guard_dict:
@@ -745,15 +751,19 @@ class Simulator:
                     track_map,
                     agent_state,
                     agent_mode,
+                    unsafe_continue,
                 )
                 if asserts != None:
                     all_asserts[agent_id] = asserts
-                    continue
+                    if not unsafe_continue:
+                        continue
                 if len(satisfied) != 0:
                     satisfied_guard.extend(satisfied)
                     # assert all(len(s[2]) == 4 for s in satisfied)
-            if len(all_asserts) > 0:
+            if len(all_asserts) > 0 and not unsafe_continue:
                 return all_asserts, dict(transitions), idx
+            for agent_id, labels in all_asserts.items():
+                passed_asserts[agent_id] = dedup(passed_asserts.get(agent_id, []) + labels)
             if len(satisfied_guard) > 0:
                 if print_level >= 1:
                     print(f"Length of satisfied guard: {len(satisfied_guard)}")
@@ -782,7 +792,7 @@ class Simulator:
                 if transitions:
                     break
         transitions = {aid: dedup(v, lambda p: (p[1], tuple(p[2]))) for aid, v in transitions.items()}
-        return None, transitions, idx
+        return passed_asserts or None, transitions, idx
 
     @staticmethod
     def get_transition_simulate_simple(
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index fa96f75..7a19ba6 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -569,10 +569,11 @@ class Verifier:
         asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
             config, new_cache, paths_to_sim, node, consts.lane_map, consts.sensor
         )
+        if asserts != None:
+            asserts, idx = asserts
         node.assert_hits = asserts
 
         if not config.unsafe_continue and asserts != None:
-            asserts, idx = asserts
             if not consts.reachability_method == ReachabilityMethod.STAR_SETS:
                 for agent in node.agent:
                     node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
@@ -1066,6 +1067,7 @@ class Verifier:
             reduction_queue.reverse()
         # for idx, end_idx,combine_len in reduction_queue:
         hits = []
+        passed_asserts, passed_idx = {}, None  # violations that do not stop the exploration
         while reduction_queue:
             idx, end_idx, combine_len = reduction_queue.pop()
             reduction_needed = False
@@ -1097,7 +1099,7 @@ class Verifier:
                     guard_hit = True
                     break
                 else:
-                    return None, cached_trans
+                    return (passed_asserts, passed_idx) if passed_asserts else None, cached_trans
             hits = []
 
             asserts = defaultdict(list)
@@ -1149,7 +1151,7 @@ class Verifier:
                             break
                 if reduction_needed:
                     break
-                if agent_id in asserts:
+                if agent_id in asserts and not config.unsafe_continue:
                     continue
                 if agent_id not in agent_guard_dict:
                     continue
@@ -1239,13 +1241,16 @@ class Verifier:
 
             if reduction_needed or combine_len > 1:
                 continue
-            if len(asserts) > 0:
+            if len(asserts) > 0 and not config.unsafe_continue:
                 return (asserts, idx), None
             if hits != []:
                 guard_hits.append((hits, state_dict, idx))
                 guard_hit = True
             elif guard_hit:
                 break
+            for agent_id, labels in asserts.items():
+                passed_asserts[agent_id] = dedup(passed_asserts.get(agent_id, []) + labels)
+                passed_idx = idx
             if any_contained:
                 break
         reset_dict = {}  # defaultdict(lambda: defaultdict(list))
@@ -1295,7 +1300,8 @@ class Verifier:
                         if not any(t[:5] == transition[:5] for t in possible_transitions):
                             possible_transitions.append(transition)
         # Return result
-        return None, possible_transitions + cached_trans
+        asserts = (passed_asserts, passed_idx) if passed_asserts else None
+        return asserts, possible_transitions + cached_trans
 
     @staticmethod
     def map_permits(node: AnalysisTreeNode, agent_id, dest, track_map) -> bool:
@@ -1703,10 +1709,11 @@ class Verifier:
         asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
             config, {}, [], node, consts.lane_map, consts.sensor
         )
+        if asserts != None:
+            asserts, idx = asserts
         node.assert_hits = asserts
 
         if not config.unsafe_continue and asserts != None:
-            asserts, idx = asserts
             for agent in node.agent:
                 node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             return (
-- 
2.43.0


From 81124e74f8b8b410faeb39918f5a16ebb5766f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 21/46] fix: incremental runs reuse cached results only where
 they apply

---
 verse/analysis/analysis_tree.py |   4 +
 verse/analysis/incremental.py   | 259 +++++++++---------------
 verse/analysis/simulator.py     | 175 ++++------------
 verse/analysis/verifier.py      | 346 +++++++++-----------------------
 verse/scenario/scenario.py      |   2 +
 5 files changed, 224 insertions(+), 562 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 38db773..735f198 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -265,6 +265,10 @@ class AnalysisTree:
         self.root = root
         self.nodes = self._get_all_nodes(root)
         self.type = root.type
+        # The logic the tree was computed with, which the agents may replace later
+        self.decision_logic = {
+            aid: getattr(agent, "decision_logic", None) for aid, agent in root.agent.items()
+        }
 
     @staticmethod
     def _get_all_nodes(root: AnalysisTreeNode) -> List[AnalysisTreeNode]:
diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 46a18b7..77bc6f1 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -13,111 +13,92 @@ from verse.analysis.dryvr import _EPSILON
 from verse.parser.parser import ControllerIR, ModePath
 
 
-@dataclass
-class CachedTransition:
-    inits: Dict[str, List[float]]
-    transition: int
-    disc: List[str]
-    cont: List[float]
-    paths: List[ModePath]
-
-
 @dataclass
 class CachedSegment:
     trace: nptyp.NDArray[np.double]
-    asserts: List[str]
-    transitions: List[CachedTransition]
-    node_ids: Set[Tuple[int, int]]
+    node_ids: Dict[Tuple[int, int], int]  # (run_num, node_id): index of the first transition
 
 
 @dataclass
-class CachedReachTrans:
-    inits: Dict[str, List[float]]
-    transition: int
-    mode: List[str]
-    dest: List[float]
-    reset: List[float]
-    reset_idx: List[int]
-    paths: List[ModePath]
+class CachedRTTrans:
+    node_ids: Dict[Tuple[int, int], int]  # (run_num, node_id): index of the first transition
 
 
-@dataclass
-class CachedRTTrans:
-    asserts: List[str]
-    transitions: List[CachedReachTrans]
-    node_ids: Set[Tuple[int, int]]  # run_num, node_id
+PathDiffs = List[Tuple[BaseAgent, ModePath]]
 
 
 def to_simulate(
-    old_agents: Dict[str, BaseAgent],
-    new_agents: Dict[str, BaseAgent],
-    cached: Dict[str, CachedSegment],
-) -> Tuple[Dict[str, CachedSegment], Any]:  # s/Any/PathDiffs/
-    assert set(old_agents.keys()) == set(new_agents.keys())
-    new_cache = {}
-    total_added_paths = []
-    for agent_id, segment in cached.items():
-        if not segment.transitions:
-            new_cache[agent_id] = segment
+    old_logic: Dict[str, ControllerIR], new_agents: Dict[str, BaseAgent]
+) -> Optional[PathDiffs]:
+    """The paths of the agents which were not there in the old decision logics.
+
+    Returns `None` if the results for the old decision logics tell nothing about the new ones."""
+    if set(old_logic.keys()) != set(new_agents.keys()):
+        return None
+    added_paths = []
+    for agent_id, agent in new_agents.items():
+        old, new = old_logic[agent_id], agent.decision_logic
+        if old is new:
             continue
-        segment = copy.deepcopy(segment)
-        removed_paths, added_paths, reset_changed_paths = [], [], []
-        old_agent, new_agent = old_agents[agent_id], new_agents[agent_id]
-        old_ctlr, new_ctlr = old_agent.decision_logic, new_agent.decision_logic
-        assert old_ctlr.args == new_ctlr.args
-
-        def group_by_var(ctlr: ControllerIR) -> Dict[str, List[ModePath]]:
-            grouped = defaultdict(list)
-            for path in ctlr.paths:
-                grouped[path.var].append(path)
-            return dict(grouped)
-
-        old_grouped, new_grouped = group_by_var(old_ctlr), group_by_var(new_ctlr)
-        if set(old_grouped.keys()) != set(new_grouped.keys()):
-            raise NotImplementedError("different variable outputs")
-        for var, old_paths in old_grouped.items():
-            new_paths = new_grouped[var]
-            for i, (old, new) in enumerate(itertools.zip_longest(old_paths, new_paths)):
-                if new == None:
-                    removed_paths.append(old)
-                elif not ControllerIR.ir_eq(old.cond_veri, new.cond_veri):
-                    removed_paths.append(old)
-                    added_paths.append(new)
-                elif not ControllerIR.ir_eq(old.val_veri, new.val_veri):
-                    reset_changed_paths.append(new)
-        removed = False
-        for trans in segment.transitions:
-            for path in trans.paths:
-                removed = removed or (path in removed_paths)
-                for rcp in reset_changed_paths:
-                    if path.cond == rcp.cond:
-                        path.val = rcp.val
-        if not removed:
-            new_cache[agent_id] = segment
-        total_added_paths.extend((new_agent, p) for p in added_paths)
-    return new_cache, total_added_paths
-
-
-def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
-    if agent_id in transit_agents:
-        return [
-            CachedTransition(
-                {k: list(v) for k, v in inits.items()}, trans_ind, mode, list(init), paths
-            )
-            for _id, mode, init, paths in transition
-        ]
-    else:
-        return []
+        old_asserts, new_asserts = (
+            [(a.label, ControllerIR.dump(a.pre), ControllerIR.dump(a.cond)) for a in ir.asserts_veri]
+            for ir in (old, new)
+        )
+        if old.args != new.args or old_asserts != new_asserts:
+            return None
 
+        def key(path: ModePath):
+            return (path.var, ControllerIR.dump(path.cond_veri), ControllerIR.dump(path.val_veri))
+
+        old_paths = set(key(p) for p in old.paths)
+        added_paths.extend((agent, p) for p in new.paths if key(p) not in old_paths)
+    return added_paths
+
+
+def reusable_check(
+    node: AnalysisTreeNode, candidates: Dict[Tuple[int, int], int], past_runs, reach: bool = False
+) -> Tuple[int, PathDiffs]:
+    """Finds the node of a past run that tells most about the transitions of `node`.
+
+    `candidates` maps nodes of past runs to the index of their first transition. The result is the
+    index before which only the returned paths may cause a transition and no assertion fails."""
+    best_idx, best_paths = 0, []
+    for (run_num, node_id), first_idx in sorted(candidates.items()):
+        if run_num >= len(past_runs):
+            continue  # the current run
+        tree = past_runs[run_num]
+        old_node = next(n for n in tree.nodes if n.id == node_id)
+        if (
+            old_node.type != node.type
+            or old_node.mode != node.mode
+            or old_node.static != node.static
+            or old_node.assert_hits
+        ):
+            continue
+        if reach:
+            first_idx = min(first_idx, contained_segments(old_node.trace, node.trace))
+        if first_idx <= best_idx:
+            continue
+        paths = to_simulate(tree.decision_logic, node.agent)
+        if paths is not None:
+            best_idx, best_paths = first_idx, paths
+    return best_idx, best_paths
+
+
+def contained_segments(old, new) -> int:
+    """For how many steps the sets of all agents are within the ones of the old node"""
+    if set(old.keys()) != set(new.keys()):
+        return 0
+    res = None
+    for agent_id in new:
+        a, b = np.array(old[agent_id]), np.array(new[agent_id])
+        n = min(len(a), len(b)) // 2 * 2
+        a, b = a[:n, 1:], b[:n, 1:]
+        inside = np.all((a[::2] <= b[::2]) & (b[1::2] <= a[1::2]), axis=1)
+        num = len(inside) if inside.all() else int(np.argmin(inside))
+        res = num if res is None else min(res, num)
+    return res or 0
 
-def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind):
-    if agent_id in transit_agents:
-        return [
-            CachedReachTrans(inits, trans_ind, mode, dest, reset, reset_idx, paths)
-            for _id, mode, dest, reset, reset_idx, paths in transition
-        ]
-    else:
-        return []
 
 def combine_all(inits, stars=False):
     if stars:
@@ -133,27 +114,6 @@ def combine_all(inits, stars=False):
     ]
 
 
-def sim_trans_suit(a: Dict[str, List[float]], b: Dict[str, List[float]]) -> bool:
-    assert set(a.keys()) == set(b.keys())
-    return all(abs(av - bv) < _EPSILON for aid in a.keys() for av, bv in zip(a[aid], b[aid]))
-
-
-def reach_trans_suit(
-    a: Dict[str, List[List[List[float]]]], b: Dict[str, List[List[List[float]]]]
-) -> bool:
-    # FIXME include discrete stuff
-    assert set(a.keys()) == set(b.keys())
-
-    def transp(a):
-        return list(map(list, zip(*a)))
-
-    def suits(a: List[List[float]], b: List[List[float]]) -> bool:
-        at, bt = transp(a), transp(b)
-        return all(al <= bl and ah >= bh for (al, ah), (bl, bh) in zip(at, bt))
-
-    return all(suits(av, bv) for aid in a.keys() for av, bv in zip(a[aid], b[aid]))
-
-
 @dataclass
 class CachedTube:
     tube: List[List[List[float]]]
@@ -172,25 +132,19 @@ class SimTraceCache:
         self,
         agent_id: str,
         node: AnalysisTreeNode,
-        transit_agents: List[str],
+        span: Tuple[float, float],
         trace: nptyp.NDArray[np.double],
-        transition,
         trans_ind: int,
         run_num: int,
     ):
-        key = (agent_id,) + tuple(node.mode[agent_id])
+        """`span` is the remaining time of the node and the time step, `trace` covers all of it"""
+        key = (agent_id,) + tuple(node.mode[agent_id]) + tuple(span)
         init = node.init[agent_id]
         tree = self.cache[key]
-        assert_hits = node.assert_hits or {}
         # pp(('add seg', agent_id, *node.mode[agent_id], *init))
         for i, val in enumerate(init):
             if i == len(init) - 1:
-                transitions = convert_sim_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
-                )
-                entry = CachedSegment(
-                    trace, assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
-                )
+                entry = CachedSegment(trace, {(run_num, node.id): trans_ind})
                 tree[val - _EPSILON : val + _EPSILON] = entry
                 return entry
             else:
@@ -205,11 +159,7 @@ class SimTraceCache:
             return [
                 [
                     (i.begin + i.end) / 2,
-                    (
-                        i.data.node_ids,
-                        [t.transition for t in i.data.transitions],
-                        len(i.data.trace),
-                    ),
+                    (i.data.node_ids, len(i.data.trace)),
                 ]
                 for i in tree
             ]
@@ -241,23 +191,13 @@ class SimTraceCache:
             ]
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[float], inits: Dict[str, List[float]]
+        self, agent_id: str, mode: Tuple[str], init: List[float], span: Tuple[float, float]
     ) -> Optional[CachedSegment]:
-        key = (agent_id,) + tuple(mode)
+        key = (agent_id,) + tuple(mode) + tuple(span)
         if key not in self.cache:
             return None
-        tree = self.cache[key]
-        entries = self.query_cont(tree, init)
-        if len(entries) == 0:
-            return None
-
-        def num_trans_suit(e: CachedSegment) -> int:
-            return sum(1 if sim_trans_suit(t.inits, inits) else 0 for t in e.transitions)
-
-        entries = list(sorted([(e, -num_trans_suit(e)) for e in entries], key=lambda p: p[1]))
-        # pp(("check hit entries", len(entries), entries[0][1]))
-        assert isinstance(entries[0][0], (type(None), CachedSegment))
-        return entries[0][0]
+        entries = self.query_cont(self.cache[key], init)
+        return entries[0] if entries else None
 
 
 class TubeCache:
@@ -269,9 +209,11 @@ class TubeCache:
         agent_id: str,
         mode: Tuple[str],
         init: List[List[float]],
+        span: Tuple,
         trace: List[List[List[float]]],
     ):
-        key = (agent_id,) + tuple(mode)
+        """`span` is the remaining time and the time step of the tube"""
+        key = (agent_id,) + tuple(mode) + tuple(span)
         init = list(map(list, zip(*init)))
         tree = self.cache[key]
         for i, (low, high) in enumerate(init):
@@ -286,9 +228,9 @@ class TubeCache:
         raise Exception("???")
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[List[float]]
+        self, agent_id: str, mode: Tuple[str], init: List[List[float]], span: Tuple
     ) -> Optional[CachedTube]:
-        key = (agent_id,) + tuple(mode)
+        key = (agent_id,) + tuple(mode) + tuple(span)
         if key not in self.cache:
             return None
         tree = self.cache[key]
@@ -312,24 +254,16 @@ class ReachTubeCache:
         agent_id: str,
         init: Dict[str, List[List[float]]],
         node: AnalysisTreeNode,
-        transit_agents: List[str],
-        transition,
         trans_ind: int,
         run_num: int,
     ):
         key = (agent_id,) + tuple(node.mode[agent_id])
         tree = self.cache[key]
         # pp(('add seg', agent_id, node.mode[agent_id], init))
-        assert_hits = node.assert_hits or {}
         init = list(map(tuple, zip(*init[agent_id])))
         for i, (low, high) in enumerate(init):
             if i == len(init) - 1:
-                transitions = convert_reach_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
-                )
-                entry = CachedRTTrans(
-                    assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
-                )
+                entry = CachedRTTrans({(run_num, node.id): trans_ind})
                 tree[low : high + _EPSILON] = entry
                 return entry
             else:
@@ -358,24 +292,15 @@ class ReachTubeCache:
         self,
         agent_id: str,
         mode: Tuple[str],
-        init: List[float],
-        inits: Dict[str, List[List[List[float]]]],
+        init: List[List[float]],
     ) -> Optional[CachedRTTrans]:
         key = (agent_id,) + tuple(mode)
         if key not in self.cache:
             return None
-        tree = self.cache[key]
-        entries = self.query_cont(tree, list(map(tuple, zip(*init))))
-        if len(entries) == 0:
+        entries = self.query_cont(self.cache[key], list(map(tuple, zip(*init))))
+        if not entries:
             return None
-
-        def num_trans_suit(e: CachedRTTrans) -> int:
-            return sum(1 if reach_trans_suit(t.inits, inits) else 0 for t in e.transitions)
-
-        entries = list(sorted([(e, -num_trans_suit(e)) for e in entries], key=lambda p: p[1]))
-        # pp(("check hit entries", len(entries), entries[0][1]))
-        assert isinstance(entries[0][0], CachedRTTrans)
-        return entries[0][0]
+        return CachedRTTrans({k: v for e in entries for k, v in e.node_ids.items()})
 
     @staticmethod
     def iter_tree(tree, depth: int) -> List[List[float]]:
@@ -383,7 +308,7 @@ class ReachTubeCache:
             return [
                 [
                     (i.begin + i.end) / 2,
-                    (i.data.run_num, i.data.node_id, [t.transition for t in i.data.transitions]),
+                    i.data.node_ids,
                 ]
                 for i in tree
             ]
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 9af5c84..613749c 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -14,17 +14,10 @@ from enum import Enum
 import numpy as np
 
 from verse.agents.base_agent import BaseAgent
-from verse.analysis.incremental import CachedSegment, SimTraceCache, convert_sim_trans, to_simulate
+from verse.analysis.incremental import CachedSegment, SimTraceCache, reusable_check
 from verse.utils.utils import dedup
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import ModePath, find, unparse
-from verse.analysis.incremental import (
-    CachedRTTrans,
-    CachedSegment,
-    combine_all,
-    reach_trans_suit,
-    sim_trans_suit,
-)
 
 pp = functools.partial(pprint.pprint, compact=True, width=130)
 
@@ -203,7 +196,7 @@ class Simulator:
         config: "ScenarioConfig",
         cached_segments: Dict[str, CachedSegment],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
+        old_nodes: Dict[Tuple[int, int], int],
         later: int,
         remain_time: float,
         consts: SimConsts,
@@ -214,10 +207,13 @@ class Simulator:
             print(node.mode)
         # print(f"node id: {node.id}")
         cache_updates = []
+        span = (remain_time, consts.time_step)
         for agent_id in node.agent:
             if agent_id not in node.trace:
                 if agent_id in cached_segments:
-                    node.trace[agent_id] = cached_segments[agent_id].trace
+                    trace = np.array(cached_segments[agent_id].trace)
+                    trace[:, 0] += node.start_time - trace[0, 0]
+                    node.trace[agent_id] = trace
                 else:
                     # pp(("sim", agent_id, *mode, *init))
                     # Simulate the trace starting from initial condition
@@ -231,17 +227,10 @@ class Simulator:
         # pp(("cached_segments", cached_segments.keys()))
         # TODO: for now, make sure all the segments comes from the same node; maybe we can do
         # something to combine results from different nodes in the future
-        new_cache, paths_to_sim = {}, []
-        if old_node_id != None:
-            if old_node_id[0] != consts.run_num:
-                old_node = find(
-                    consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
-                )
-                assert old_node != None
-                new_cache, paths_to_sim = to_simulate(old_node.agent, node.agent, cached_segments)
+        first_idx, paths_to_sim = reusable_check(node, old_nodes, consts.past_runs)
 
         asserts, transitions, transition_idx = Simulator.get_transition_simulate(
-            new_cache, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level,
+            first_idx, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level,
             config.unsafe_continue,
         )
         node.assert_hits = asserts
@@ -281,36 +270,16 @@ class Simulator:
                 if config.incremental:
                     for agent_id in node.agent:
                         cache_updates.append(
-                            (
-                                agent_id not in cached_segments,
-                                agent_id,
-                                [],
-                                full_traces[agent_id],
-                                [],
-                                transition_idx,
-                                consts.run_num,
-                            )
+                            (agent_id, span, full_traces[agent_id], transition_idx, consts.run_num)
                         )
                 # print(red("no trans"))
                 # print(f"node {node.id} dur {timeit.default_timer() - t}")
                 return (node.id, later, [], node.trace, asserts, cache_updates)
 
-            transit_agents = transitions.keys()
-            # pp(("transit agents", transit_agents))
             if config.incremental:
                 for agent_id in node.agent:
-                    transition = transitions[agent_id] if agent_id in transit_agents else []
-                    # TODO: update current transitions
                     cache_updates.append(
-                        (
-                            agent_id not in cached_segments,
-                            agent_id,
-                            transit_agents,
-                            full_traces[agent_id],
-                            transition,
-                            transition_idx,
-                            consts.run_num,
-                        )
+                        (agent_id, span, full_traces[agent_id], transition_idx, consts.run_num)
                     )
             # pp(("cached inits", self.cache.get_cached_inits(3)))
             # Generate the transition combinations if multiple agents can transit at the same time step
@@ -369,34 +338,13 @@ class Simulator:
             self.simulation_queue.append((node, later))
         self.simulation_queue.sort(key=lambda p: p[1:])
         self.nodes.extend(next_nodes)
-        for (
-            new,
-            aid,
-            transit_agents,
-            full_trace,
-            transition,
-            transition_idx,
-            run_num,
-        ) in cache_updates:
-            cached = self.cache.check_hit(
-                aid, done_node.mode[aid], done_node.init[aid], done_node.init
-            )
-            if new and not cached:
-                self.cache.add_segment(
-                    aid, done_node, transit_agents, full_trace, transition, transition_idx, run_num
-                )
+        for aid, span, full_trace, transition_idx, run_num in cache_updates:
+            cached = self.cache.check_hit(aid, done_node.mode[aid], done_node.init[aid], span)
+            if cached is None:
+                self.cache.add_segment(aid, done_node, span, full_trace, transition_idx, run_num)
                 self.num_cached += 1
             else:
-                assert cached != None
-                cached.transitions.extend(
-                    convert_sim_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
-                    )
-                )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.disc, i.cont, i.inits))
-                cached.node_ids.add((run_num, done_node.id))
-            # pre_len = len(cached_segments[aid].transitions)
-            # pp(("dedup!", pre_len, len(cached_segments[aid].transitions)))
+                cached.node_ids[(run_num, done_node.id)] = transition_idx
         # print(f"proc dur {timeit.default_timer() - t}")
 
     def simulate(
@@ -444,7 +392,9 @@ class Simulator:
                     init = node.init[agent_id]
                     if self.config.incremental:
                         # pp(("check hit", agent_id, mode, init))
-                        cached = self.cache.check_hit(agent_id, mode, init, node.init)
+                        cached = self.cache.check_hit(
+                            agent_id, mode, init, (remain_time, time_step)
+                        )
                         if cached != None:
                             self.cache_hits = self.cache_hits[0] + 1, self.cache_hits[1]
                         else:
@@ -452,15 +402,17 @@ class Simulator:
                         # pp(("check hit res", agent_id, len(cached.transitions) if cached != None else None))
                         if cached != None:
                             cached_segments[agent_id] = cached
-                old_node_id = None
+                old_nodes = {}
                 if len(cached_segments) == len(node.agent):
                     all_node_ids = [s.node_ids for s in cached_segments.values()]
-                    node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
-                    if len(node_ids) > 0:
-                        old_node_id = node_ids[0]
+                    old_nodes = {
+                        k: min(ids[k] for ids in all_node_ids)
+                        for k in all_node_ids[0]
+                        if all(k in ids for ids in all_node_ids)
+                    }
                     # else:
                     #     print(f"not full {node.id}: {node_ids}, {len(cached_segments) == len(node.agent)} | {all_node_ids}")
-                if not self.config.parallel or old_node_id != None:
+                if not self.config.parallel or old_nodes:
                     # print(f"local {node.id}")
                     t = timeit.default_timer()
                     self.proc_result(
@@ -468,7 +420,7 @@ class Simulator:
                             self.config,
                             cached_segments,
                             node,
-                            old_node_id,
+                            old_nodes,
                             later,
                             remain_time,
                             consts,
@@ -481,7 +433,7 @@ class Simulator:
                             self.config,
                             cached_segments,
                             node,
-                            old_node_id,
+                            old_nodes,
                             later,
                             remain_time,
                             consts_ref,
@@ -629,8 +581,8 @@ class Simulator:
 
     @staticmethod
     def get_transition_simulate(
-        cache: Dict[str, CachedSegment],
-        paths: PathDiffs,
+        first_idx: int,
+        new_paths: PathDiffs,
         node: AnalysisTreeNode,
         track_map: LaneMap,
         sensor,
@@ -644,64 +596,10 @@ class Simulator:
     ]:
         trace_length = len(list(node.trace.values())[0])
 
-        # For each agent
+        # For each agent.  Before first_idx only agents with new paths have to be looked at
         agent_guard_dict = defaultdict(list)
-        cached_guards = defaultdict(list)
-        min_trans_ind = None
-        cached_trans = defaultdict(list)
-
-        if not cache:
-            paths = [
-                (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
-            ]
-        else:
-            _transitions = [
-                (aid, trans)
-                for aid, seg in cache.items()
-                for trans in seg.transitions
-                if sim_trans_suit(trans.inits, node.init)
-            ]
-            # pp(("cached trans", _transitions))
-            if len(_transitions) > 0:
-                min_trans_ind = min([t.transition for _, t in _transitions])
-                # pp(("min", min_trans_ind))
-                for aid, trans in _transitions:
-                    # TODO: check for asserts
-                    if trans.transition == min_trans_ind:
-                        # pp(("chosen tran", aid, trans))
-                        cached_trans[aid].append((aid, trans.disc, trans.cont, trans.paths))
-                for agent_id in cached_trans:
-                    cached_trans[agent_id] = dedup(cached_trans[agent_id], lambda p: p[:3])
-                if len(paths) == 0:
-                    # print(red("full cache"))
-                    return None, dict(cached_trans), min_trans_ind
-
-                path_transitions = defaultdict(int)
-                for seg in cache.values():
-                    for tran in seg.transitions:
-                        for p in tran.paths:
-                            path_transitions[p.cond] = max(
-                                path_transitions[p.cond], tran.transition
-                            )
-                for agent_id, segment in cache.items():
-                    agent = node.agent[agent_id]
-                    if len(agent.decision_logic.args) == 0:
-                        continue
-                    state_dict = {
-                        aid: (node.trace[aid][0], node.mode[aid], node.static[aid])
-                        for aid in node.agent
-                    }
-                    agent_paths = dedup(
-                        [p for tran in segment.transitions for p in tran.paths],
-                        lambda i: (i.var, i.cond, i.val),
-                    )
-                    cont_var_dict_template, discrete_variable_dict, len_dict = sensor.sense(
-                        agent, state_dict, track_map
-                    )
-                    for path in agent_paths:
-                        cached_guards[agent_id].append(
-                            (path, discrete_variable_dict, path_transitions[path.cond])
-                        )
+        agents_with_new_path = set(agent.id for agent, _ in new_paths)
+        paths = [(agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths]
 
         for agent, path in paths:
             # Get guard
@@ -725,11 +623,11 @@ class Simulator:
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
         passed_asserts = {}  # violations that do not stop the exploration
         for idx in range(trace_length):
-            if min_trans_ind != None and idx >= min_trans_ind:
-                return passed_asserts or None, dict(cached_trans), min_trans_ind
             satisfied_guard = []
             all_asserts = defaultdict(list)
             for agent_id in agent_guard_dict:
+                if idx < first_idx and agent_id not in agents_with_new_path:
+                    continue
                 agent: BaseAgent = agent_dict[agent_id]
                 state_dict = {
                     aid: (node.trace[aid][idx], node.mode[aid], node.static[aid])
@@ -740,12 +638,9 @@ class Simulator:
                 continuous_variable_dict, orig_disc_vars, _ = sensor.sense(
                     agent, state_dict, track_map
                 )
-                unchecked_cache_guards = [
-                    g[:2] for g in cached_guards[agent_id] if g[2] < idx
-                ]  # FIXME: off by 1?
                 asserts, satisfied = check_sim_transitions(
                     agent,
-                    agent_guard_dict[agent_id] + unchecked_cache_guards,
+                    agent_guard_dict[agent_id],
                     continuous_variable_dict,
                     orig_disc_vars,
                     track_map,
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 7a19ba6..c1a3055 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -14,11 +14,9 @@ from verse.analysis.dryvr import calc_bloated_tube, SIMTRACENUM
 from verse.analysis.incremental import (
     ReachTubeCache,
     TubeCache,
-    convert_reach_trans,
-    to_simulate,
     combine_all,
+    reusable_check,
 )
-from verse.analysis.incremental import CachedRTTrans, combine_all, reach_trans_suit
 from verse.utils.utils import dedup, substitute_var
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import find, ModePath, unparse
@@ -68,6 +66,7 @@ class Verifier:
         agent_id,
         mode_label,
         initial_set,
+        span,
         combine_seg_length=1000,
     ):
         """
@@ -93,7 +92,7 @@ class Verifier:
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
             if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
+                cached = self.cache.check_hit(agent_id, mode_label, combined_rect, span)
                 if cached != None:
                     self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
                     # print('cache', agent_id, time_horizon, self.tube_cache_hits )
@@ -213,7 +212,8 @@ class Verifier:
 
            
             if incremental:
-                cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
+                span = (time_horizon, time_step)
+                cache_tube_updates.append((agent_id, mode_label, combined_rect, span, cur_bloated_tube))
                 #EXISTING CODE, NOT SURE WHAT TO DO:
             old_code = False
             if old_code:
@@ -240,59 +240,25 @@ class Verifier:
         agent_id,
         mode_label,
         initial_set,
+        span,
         combine_seg_length=1000,
     ):
         """
         Check the bloated tubes cached already
 
         :param TBA
-        :return:    the combined bloated tube with all cached tube segs
-                    a list of indexs of missing segs
+        :return:    the cached tubes by the index of their segment in the initial sets
         """
-        missing_seg_idx_list = []
-        res_tube = None
-        tube_length = 0
+        cached_tubes = {}
         for combine_seg_idx in range(0, len(initial_set), combine_seg_length):
             rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
-            combined_rect = None
-            for rect in rect_seg:
-                rect = np.array(rect)
-                if combined_rect is None:
-                    combined_rect = rect
-                else:
-                    combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
-                    combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
-            combined_rect = combined_rect.tolist()
-            if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
-                if cached != None:
-                    self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
-                    # print('cache', agent_id, time_horizon, self.tube_cache_hits )
-                else:
-                    self.tube_cache_hits = self.tube_cache_hits[0], self.tube_cache_hits[1] + 1
-                    # print('noncache', agent_id, time_horizon, self.tube_cache_hits )
-            else:
-                cached = None
+            cached = self.cache.check_hit(agent_id, mode_label, combine_all(rect_seg), span)
             if cached != None:
-                cur_bloated_tube = cached.tube
+                self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
+                cached_tubes[combine_seg_idx] = cached.tube
             else:
-                missing_seg_idx_list.append(combine_seg_idx)
-                continue
-            # FIXME
-            if res_tube is None:
-                res_tube = cur_bloated_tube
-                tube_length = cur_bloated_tube.shape[0]
-            else:
-                cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
-                # Handle Lower Bound
-                res_tube[combine_seg_idx * 2 :: 2, 1:] = np.minimum(
-                    res_tube[combine_seg_idx * 2 :: 2, 1:], cur_bloated_tube[::2, 1:]
-                )
-                # Handle Upper Bound
-                res_tube[combine_seg_idx * 2 + 1 :: 2, 1:] = np.maximum(
-                    res_tube[combine_seg_idx * 2 + 1 :: 2, 1:], cur_bloated_tube[1::2, 1:]
-                )
-        return res_tube, missing_seg_idx_list
+                self.tube_cache_hits = self.tube_cache_hits[0], self.tube_cache_hits[1] + 1
+        return cached_tubes
 
     @staticmethod
     def calculate_full_bloated_tube_simple(
@@ -324,18 +290,13 @@ class Verifier:
         if "bloating_method" in params:
             bloating_method = params["bloating_method"]
         cache_tube_updates = []
-        if incremental:
-            cached_tube, missing_seg_idx_list = cached_tube_info
-        else:
-            cached_tube, missing_seg_idx_list = None, range(0, len(initial_set), combine_seg_length)
-        res_tube = cached_tube
-        if res_tube is None:
-            tube_length = 0
-        else:
-            tube_length = res_tube.shape[0]
-        # print(f'{len(missing_seg_idx_list)} inits to combine')
-        # for combine_seg_idx in tqdm(missing_seg_idx_list): # NOTE: is it possible to parallelize this
-        for combine_seg_idx in missing_seg_idx_list: # NOTE: is it possible to parallelize this
+        cached_tubes = cached_tube_info if incremental else {}
+        seg_idx_list = range(0, len(initial_set), combine_seg_length)
+        res_tube = None
+        tube_length = 0
+        for combine_seg_idx in seg_idx_list: # NOTE: is it possible to parallelize this
+            if res_tube is not None and tube_length <= 2 * combine_seg_idx:
+                break
             rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
             combined_rect = None
             for rect in rect_seg:
@@ -346,25 +307,29 @@ class Verifier:
                     combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
-            cur_bloated_tube = calc_bloated_tube(
-                mode_label,
-                combined_rect,
-                time_horizon,
-                time_step,
-                sim_func,
-                bloating_method,
-                kvalue,
-                sim_trace_num,
-                lane_map=lane_map,
-            )
-            if incremental:
-                cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
+            if combine_seg_idx in cached_tubes:
+                cur_bloated_tube = cached_tubes[combine_seg_idx]
+            else:
+                cur_bloated_tube = calc_bloated_tube(
+                    mode_label,
+                    combined_rect,
+                    time_horizon,
+                    time_step,
+                    sim_func,
+                    bloating_method,
+                    kvalue,
+                    sim_trace_num,
+                    lane_map=lane_map,
+                )
+                if incremental:
+                    span = (time_horizon, time_step, bloating_method)
+                    cache_tube_updates.append(
+                        (agent_id, mode_label, combined_rect, span, cur_bloated_tube)
+                    )
             if res_tube is None:
-                res_tube = cur_bloated_tube
+                res_tube = np.array(cur_bloated_tube)
                 tube_length = cur_bloated_tube.shape[0]
             else:
-                if tube_length <= 2 * combine_seg_idx:
-                    break
                 cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
                 # Handle Lower Bound
                 res_tube[combine_seg_idx * 2 :: 2, 1:] = np.minimum(
@@ -379,10 +344,9 @@ class Verifier:
     @staticmethod
     def compute_full_reachtube_step(
         config: "ScenarioConfig",
-        cached_trans_tubes: Dict[str, CachedRTTrans],
-        cached_tubes: Dict[str, Tuple],
+        cached_tubes: Dict[str, Dict],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
+        old_nodes: Dict[Tuple[int, int], int],
         later: int,
         remain_time: float,
         consts: ReachConsts,
@@ -551,23 +515,15 @@ class Verifier:
                 trace = np.array(cur_bloated_tube)
                 trace[:, 0] += node.start_time
                 node.trace[agent_id] = trace.tolist()
-        # pp(("cached tubes", cached_tubes.keys()))
-        new_cache, paths_to_sim = {}, []
-        if old_node_id != None:
-            if old_node_id[0] != consts.run_num:
-                old_node = find(
-                    consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
-                )
-                assert old_node != None
-                new_cache, paths_to_sim = to_simulate(
-                    old_node.agent, node.agent, cached_trans_tubes
-                )
-                # pp(("to sim", new_cache.keys(), len(paths_to_sim)))
+        # Before first_idx a node of a past run tells that only the new paths may be hit
+        first_idx, paths_to_sim = 0, []
+        if old_nodes:
+            first_idx, paths_to_sim = reusable_check(node, old_nodes, consts.past_runs, reach=True)
 
         # Get all possible transitions to next mode
         # FIXME: weird bug using new dryvr_disc where length of next_init is 4096 even though all inits are the same
         asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
-            config, new_cache, paths_to_sim, node, consts.lane_map, consts.sensor
+            config, first_idx, paths_to_sim, node, consts.lane_map, consts.sensor
         )
         if asserts != None:
             asserts, idx = asserts
@@ -591,29 +547,13 @@ class Verifier:
             )
 
         # pp(("transitions:", [(t[0], t[2]) for t in all_possible_transitions]))
-        transit_map = {
-            k: list(l) for k, l in itertools.groupby(all_possible_transitions, key=lambda p: p[0])
-        }
-        transit_agents = transit_map.keys()
-        # pp(("transit agents", transit_agents))
         if config.incremental:
             transit_ind = (
-                min(l[-2][-1] for l in all_possible_transitions)
+                min(t[-2][0] for t in all_possible_transitions)
                 if len(all_possible_transitions) > 0
                 else len(list(node.trace.values())[0])
             )
-            for agent_id in node.agent:
-                transition = transit_map[agent_id] if agent_id in transit_agents else []
-                cache_trans_tube_updates.append(
-                    (
-                        agent_id not in cached_trans_tubes,
-                        agent_id,
-                        transit_agents,
-                        transition,
-                        transit_ind,
-                        consts.run_num,
-                    )
-                )
+            cache_trans_tube_updates.append((transit_ind, consts.run_num))
 
         if node.height >= max_height:
             print("max depth reached")
@@ -722,39 +662,12 @@ class Verifier:
         if done_node.height <= max_height:
             self.nodes.extend(next_nodes)
         combined_inits = {a: combine_all(inits,self.config.reachability_method == ReachabilityMethod.STAR_SETS) for a, inits in done_node.init.items()}
-        for (
-            new,
-            aid,
-            transit_agents,
-            transition,
-            transition_idx,
-            run_num,
-        ) in cache_trans_tube_updates:
-            cached = self.trans_cache.check_hit(
-                aid, done_node.mode[aid], combine_all(done_node.init[aid]), done_node.init
-            )
-            if new and not cached:
-                self.trans_cache.add_tube(
-                    aid,
-                    combined_inits,
-                    done_node,
-                    transit_agents,
-                    transition,
-                    transition_idx,
-                    run_num,
-                )
+        for transition_idx, run_num in cache_trans_tube_updates:
+            for aid in done_node.agent:
+                self.trans_cache.add_tube(aid, combined_inits, done_node, transition_idx, run_num)
                 self.num_cached += 1
-            else:
-                assert cached != None
-                cached.transitions.extend(
-                    convert_reach_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
-                    )
-                )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.mode, i.dest, i.inits))
-                cached.node_ids.add((run_num, done_node.id))
-        for agent_id, mode_label, combined_rect, cur_bloated_tube in cache_tube_updates:
-            self.cache.add_tube(agent_id, mode_label, combined_rect, cur_bloated_tube)
+        for agent_id, mode_label, combined_rect, span, cur_bloated_tube in cache_tube_updates:
+            self.cache.add_tube(agent_id, mode_label, combined_rect, span, cur_bloated_tube)
         # print(f"proc dur {timeit.default_timer() - t}")
 
     def compute_full_reachtube(
@@ -815,7 +728,7 @@ class Verifier:
                     combined = combine_all(inits, reachability_method == ReachabilityMethod.STAR_SETS)
                     if self.config.incremental:
                         # CachedRTTrans
-                        cached = self.trans_cache.check_hit(agent_id, mode, combined, node.init)
+                        cached = self.trans_cache.check_hit(agent_id, mode, combined)
                         if cached != None:
                             self.trans_cache_hits = (
                                 self.trans_cache_hits[0] + 1,
@@ -834,7 +747,11 @@ class Verifier:
                             # uncertain_param = node.uncertain_param[agent_id]
                             # CachedTube.tube
                             cur_bloated_tube, miss_seg_idx_list = self.check_cache_bloated_tube_stars(
-                                agent_id, mode, inits, combine_seg_length=init_seg_length
+                                agent_id,
+                                mode,
+                                inits,
+                                (remain_time, time_step),
+                                combine_seg_length=init_seg_length,
                             )
                             cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
                             print("done")
@@ -843,29 +760,33 @@ class Verifier:
                         elif agent_id not in node.trace and reachability_method == ReachabilityMethod.DRYVR:
                             # uncertain_param = node.uncertain_param[agent_id]
                             # CachedTube.tube
-                            cur_bloated_tube, miss_seg_idx_list = self.check_cache_bloated_tube(
-                                agent_id, mode, inits, combine_seg_length=init_seg_length
+                            cached_tubes[agent_id] = self.check_cache_bloated_tube(
+                                agent_id,
+                                mode,
+                                inits,
+                                (remain_time, time_step, params.get("bloating_method", "PW")),
+                                combine_seg_length=init_seg_length,
                             )
-                            cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
-                # FIXME
-                old_node_id = None
-                if len(cached_trans_tubes) == len(node.agent):
+                old_nodes = {}
+                if (
+                    len(cached_trans_tubes) == len(node.agent)
+                    and reachability_method != ReachabilityMethod.STAR_SETS
+                ):
                     all_node_ids = [s.node_ids for s in cached_trans_tubes.values()]
-                    # print('all_node_ids', all_node_ids)
-                    node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
-                    # print('node_ids', node_ids)
-                    if len(node_ids) > 0:
-                        old_node_id = node_ids[0]
+                    old_nodes = {
+                        k: v
+                        for k, v in all_node_ids[0].items()
+                        if all(k in ids for ids in all_node_ids)
+                    }
                     # else:
                     #     print(f"not full {node.id}: {node_ids}, {len(cached_trans_tubes) == len(node.agent)} | {all_node_ids}")
-                if not self.config.parallel or (old_node_id != None and self.config.try_local):
+                if not self.config.parallel or (old_nodes and self.config.try_local):
                     self.proc_result(
                         *self.compute_full_reachtube_step(
                             self.config,
-                            cached_trans_tubes,
                             cached_tubes,
                             node,
-                            old_node_id,
+                            old_nodes,
                             later,
                             remain_time,
                             consts,
@@ -878,10 +799,9 @@ class Verifier:
                     self.result_refs.append(
                         self.compute_full_reachtube_step_remote.remote(
                             self.config,
-                            cached_trans_tubes,
                             cached_tubes,
                             node,
-                            old_node_id,
+                            old_nodes,
                             later,
                             remain_time,
                             consts_ref,
@@ -928,91 +848,17 @@ class Verifier:
 
     @staticmethod
     def get_transition_verify_opt(
-        config: "ScenarioConfig", cache: Dict[str, CachedRTTrans], paths: PathDiffs, node: AnalysisTreeNode, track_map, sensor
+        config: "ScenarioConfig", first_idx: int, new_paths: PathDiffs, node: AnalysisTreeNode, track_map, sensor
     ) -> Tuple[
         Optional[Dict[str, List[str]]],
         Optional[Dict[str, List[Tuple[str, List[str], List[float]]]]],
     ]:
-        # For each agent
+        # For each agent.  Before first_idx only agents with new paths have to be looked at
         agent_guard_dict = defaultdict(list)
-        cached_guards = defaultdict(list)
-        min_trans_ind = None
-        cached_trans = []
         agent_dict = node.agent
+        agents_with_new_path = set(agent.id for agent, _ in new_paths)
 
-        if not cache:
-            paths = [
-                (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
-            ]
-        else:
-            # _transitions = [trans.transition for seg in cache.values() for trans in seg.transitions]
-            _transitions = [
-                (aid, trans)
-                for aid, seg in cache.items()
-                for trans in seg.transitions
-                if reach_trans_suit(trans.inits, node.init)
-            ]
-            # pp(("cached trans", len(_transitions)))
-            if len(_transitions) > 0:
-                min_trans_ind = min([t.transition for _, t in _transitions])
-                # TODO: check for asserts
-                cached_trans = [
-                    (aid, tran.mode, tran.dest, tran.reset, tran.reset_idx, tran.paths)
-                    for aid, tran in dedup(_transitions, lambda p: (p[0], p[1].mode, p[1].dest))
-                    if tran.transition == min_trans_ind
-                ]
-                if len(paths) == 0:
-                    # print(red("full cache"))
-                    return None, cached_trans
-
-                path_transitions = defaultdict(int)
-                for seg in cache.values():
-                    for tran in seg.transitions:
-                        for p in tran.paths:
-                            path_transitions[p.cond] = max(
-                                path_transitions[p.cond], tran.transition
-                            )
-                for agent_id, segment in cache.items():
-                    agent = node.agent[agent_id]
-                    if len(agent.decision_logic.args) == 0:
-                        continue
-                    state_dict = {
-                        aid: (node.trace[aid][0], node.mode[aid], node.static[aid])
-                        for aid in node.agent
-                    }
-
-                    agent_paths = dedup(
-                        [p for tran in segment.transitions for p in tran.paths],
-                        lambda i: (i.var, i.cond, i.val),
-                    )
-                    for path in agent_paths:
-                        cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(
-                            agent, state_dict, track_map, False
-                        )
-                        reset = (path.var, path.val_veri)
-                        guard_expression = GuardExpressionAst(
-                            [path.cond_veri], len(paths) + len(cached_guards[agent_id])
-                        )
-
-                        cont_var_updater = guard_expression.parse_any_all_new(
-                            cont_var_dict_template, discrete_variable_dict, length_dict
-                        )
-                        Verifier.apply_cont_var_updater(cont_var_dict_template, cont_var_updater)
-                        guard_can_satisfied = guard_expression.evaluate_guard_disc(
-                            agent, discrete_variable_dict, cont_var_dict_template, track_map
-                        )
-                        if not guard_can_satisfied:
-                            continue
-                        cached_guards[agent_id].append(
-                            (
-                                path,
-                                guard_expression,
-                                cont_var_updater,
-                                copy.deepcopy(discrete_variable_dict),
-                                reset,
-                                path_transitions[path.cond],
-                            )
-                        )
+        paths = [(agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths]
 
         # for aid, trace in node.trace.items():
         #     if len(trace) < 2:
@@ -1093,13 +939,6 @@ class Verifier:
 					)
 					for aid in node.agent
 				}
-            if min_trans_ind != None and idx > min_trans_ind:
-                if hits:
-                    guard_hits.append((hits, state_dict, idx))
-                    guard_hit = True
-                    break
-                else:
-                    return (passed_asserts, passed_idx) if passed_asserts else None, cached_trans
             hits = []
 
             asserts = defaultdict(list)
@@ -1107,6 +946,8 @@ class Verifier:
                 agent: BaseAgent = agent_dict[agent_id]
                 if len(agent.decision_logic.args) == 0:
                     continue
+                if idx < first_idx and agent_id not in agents_with_new_path:
+                    continue
                 # if np.array(agent_state).ndim != 2:
                 #     pp(("weird state", agent_id, agent_state))
                 cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
@@ -1156,11 +997,8 @@ class Verifier:
                 if agent_id not in agent_guard_dict:
                     continue
 
-                unchecked_cache_guards = [
-                    g[:-1] for g in cached_guards[agent_id] if g[-1] < idx
-                ]  # FIXME: off by 1?
                 for guard_expression, continuous_variable_updater, discrete_variable_dict, path in (
-                    agent_guard_dict[agent_id] + unchecked_cache_guards
+                    agent_guard_dict[agent_id]
                 ):
                     assert isinstance(path, ModePath)
                     new_cont_var_dict = copy.deepcopy(cont_vars)
@@ -1301,7 +1139,7 @@ class Verifier:
                             possible_transitions.append(transition)
         # Return result
         asserts = (passed_asserts, passed_idx) if passed_asserts else None
-        return asserts, possible_transitions + cached_trans
+        return asserts, possible_transitions
 
     @staticmethod
     def map_permits(node: AnalysisTreeNode, agent_id, dest, track_map) -> bool:
@@ -1608,10 +1446,9 @@ class Verifier:
                     *self.compute_full_reachtube_step_partitioned(
                         self.config,
                         # NOTE: not worrying about caching right now
-                        {},  # cached_trans_tubes (simplified) 
                         {},  # cached_tubes
                         node,
-                        None,  # old_node_id
+                        {},  # old_nodes
                         later,
                         remain_time,
                         consts,
@@ -1657,10 +1494,9 @@ class Verifier:
     @staticmethod
     def compute_full_reachtube_step_partitioned(
         config: "ScenarioConfig",
-        cached_trans_tubes: Dict[str, CachedRTTrans],
-        cached_tubes: Dict[str, Tuple],
+        cached_tubes: Dict[str, Dict],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
+        old_nodes: Dict[Tuple[int, int], int],
         later: int,
         remain_time: float,
         consts: ReachConsts,
@@ -1707,7 +1543,7 @@ class Verifier:
     
         # Check guards once (no loop)
         asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
-            config, {}, [], node, consts.lane_map, consts.sensor
+            config, 0, [], node, consts.lane_map, consts.sensor
         )
         if asserts != None:
             asserts, idx = asserts
diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index 35a1148..be4e09f 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -80,10 +80,12 @@ class Scenario:
     def set_sensor(self, sensor):
         """Sets the sensor for the scenario. Will use the default sensor when not called."""
         self.sensor = sensor
+        self.cleanup_cache()
 
     def set_map(self, track_map: LaneMap):
         """Sets the map for the scenario."""
         self.map = track_map
+        self.cleanup_cache()
         # Update the lane mode field in the agent
         for agent_id in self.agent_dict:
             agent = self.agent_dict[agent_id]
-- 
2.43.0


From 42440e39f5cff6cffba2dd80287c66417bd3d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 22/46] fix: fixed points look at every node that reaches the
 time horizon

---
 verse/utils/fixed_points.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/verse/utils/fixed_points.py b/verse/utils/fixed_points.py
index cb9fc25..ca90729 100644
--- a/verse/utils/fixed_points.py
+++ b/verse/utils/fixed_points.py
@@ -20,17 +20,17 @@ import types
 ### will now return a list of the vertices of composed/product hyperrectangles (2 vertices per rect) index by node number
 ### t_lower and t_upper need to completely enclose the time interval defined by a hyperrectangle
 def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = None) -> Dict[int, List[List[float]]]:
-    nodes: List[AnalysisTreeNode] = tree.nodes 
-    agents = nodes[0].agent.keys() # list of agents
+    agents = tree.root.agent.keys() # list of agents
+    # nodes that were not explored, e.g. those at the maximum height, do not have traces for all agents
+    nodes: List[AnalysisTreeNode] = [node for node in tree.nodes if all(len(node.trace.get(agent, [])) > 0 for agent in agents)]
     reached: Dict[int, List[List[float]]] = {}
     node_counter = 0
     sim_enum: Dict[str, Dict[str, int]] = {} #indexed by agent and then by mode -- simulates the enum class 
     for agent in agents:
         sim_enum[agent] = {'_index': 0} # initial start with an index of 0 
-    T = 0 # we know time horizon occurs in the leaf node, by definition, shouldn't matter which leaf node we check
+    T = 0 # leaf nodes may end early, e.g. when unsafe, so the time horizon is the latest time that is reached
     if t_lower is None or t_upper is None:
-        last: list[AnalysisTreeNode] = tree.get_leaf_nodes(tree.root)
-        T = last[0].trace[list(agents)[0]][-1][0] # using list casting since the agent doesn't matter
+        T = max(node.trace[list(agents)[0]][-1][0] for node in nodes) # using list casting since the agent doesn't matter
     for node in nodes:
         reached[node_counter] = None
         modes = node.mode 
@@ -63,7 +63,7 @@ def reach_at_fix(tree: AnalysisTree, t_lower: float = None, t_upper: float = Non
                         upper.append(sim_enum[agent][mode]) 
                     reach_node[agent] += [lower, upper]
             else: ### for now, just assume if t_lower and t_upper not supplied, we just want last node 
-                if node.trace[agent][-1][0]==T:
+                if abs(node.trace[agent][-1][0] - T) < 1e-8:
                     lower = list(node.trace[agent][-2][1:])
                     upper = list(node.trace[agent][-1][1:])
                     for mode in modes[agent]: # assume that size of modes[agent] doesn't change between nodes
-- 
2.43.0


From ea1503a0590a2a178dc7d66edf5a9832f1858fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 23/46] fix: first_transitions reports the earliest transition
 of an agent

---
 verse/analysis/analysis_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 735f198..50ebc2b 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -523,6 +523,6 @@ def first_transitions(tree: AnalysisTree) -> Dict[str, float]:  # id, start time
     for node in tree.nodes:
         for child in node.child:
             for aid in node.agent:
-                if aid not in d and node.mode[aid] != child.mode[aid]:
-                    d[aid] = child.start_time
+                if node.mode[aid] != child.mode[aid]:
+                    d[aid] = min(d.get(aid, child.start_time), child.start_time)
     return d
-- 
2.43.0


From 57e6491884ff94177166a9412bb8b410ea046bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 24/46] fix: verify_partitioned covers the whole hit window and
 partitions the initial set on request

---
 verse/analysis/verifier.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index c1a3055..783ca08 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1412,6 +1412,12 @@ class Verifier:
         if max_height == None:
             max_height = float("inf")
 
+        if partition_initial:
+            for agent_id, [[lower, upper]] in root.init.items():
+                # Dimension 0 of the partitioned rects is time
+                parts = Verifier._partition_rect([[0, *lower], [0, *upper]], n, partition_dims)
+                root.init[agent_id] = [[part[0][1:], part[1][1:]] for part in parts]
+
         self.verification_queue: List[Tuple[AnalysisTreeNode, int]] = [(root, 0)]
         self.result_refs = []
         self.nodes = [root]
@@ -1567,11 +1573,10 @@ class Verifier:
             for transition in all_possible_transitions:
                 transit_agent_idx, src_mode, dest_mode, next_init, idx, path = transition
 
-                # NOTE: is this correct, or do I need indices from start to end as well 
-                start_idx = idx[0]  # Use start_idx as the hitting index, end_idx = idx[1] exists sometimes
-                
-                # Get the hitting set at start_idx
-                hitting_rect = combine_rect([node.trace[transit_agent_idx][start_idx * 2], node.trace[transit_agent_idx][start_idx * 2 + 1]])
+                start_idx, end_idx = idx[0], idx[-1]
+
+                # Get the hitting set from start_idx to end_idx
+                hitting_rect = combine_rect(node.trace[transit_agent_idx][start_idx * 2 : (end_idx + 1) * 2])
                 
                 # Partition the hitting rect -- NOTE: fixing partitioning of time (0th dim always) and adding option to only partition a select number of partitions 
                 partitions = Verifier._partition_rect(hitting_rect, n, partition_dims)
-- 
2.43.0


From af94d17f9b615cb804f8ca1093f0327afb1c301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 25/46] fix: argument and generator names may shadow outer
 names in a decision logic

---
 verse/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index f5b528b..6fd4674 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -465,7 +465,8 @@ class Env:
         self.scopes[0].v[key] = val
 
     def add_hole(self, name: str, typ: Optional[str]):
-        self.set(name, ast.arg(name, ast.Constant(typ, None)))
+        # Always a new name in the current scope, it may shadow a name of an outer one
+        self.scopes[0].v[name] = ast.arg(name, ast.Constant(typ, None))
 
     def add_assert(self, expr, label):
         self.scopes[0].asserts.append(_Assert(expr, label))
-- 
2.43.0


From 295e2d56850282f47f176972042fd61464a086e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 26/46] fix: verification follows a sensor whose view of the
 other agents changes

---
 verse/analysis/verifier.py | 60 +++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 783ca08..53b6119 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -863,37 +863,31 @@ class Verifier:
         # for aid, trace in node.trace.items():
         #     if len(trace) < 2:
         #         pp(("weird state", aid, trace))
-        for path_idx, (agent, path) in enumerate(paths):
-            if len(agent.decision_logic.args) == 0:
-                continue
-            agent_id = agent.id
-            state_dict = {}
-            if config.reachability_method == ReachabilityMethod.STAR_SETS:
-                state_dict = {
-                    aid: (node.trace[aid][0:1][0], node.mode[aid], node.static[aid]) for aid in node.agent
-                }
-            else:
-                state_dict = {
-                    aid: (node.trace[aid][0:2], node.mode[aid], node.static[aid]) for aid in node.agent
-                }
-            cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(agent, state_dict, track_map, False)
-            # TODO-PARSER: Get equivalent for this function
-            # Construct the guard expression
-            guard_expression = GuardExpressionAst([path.cond_veri], path_idx)
-
-            cont_var_updater = guard_expression.parse_any_all_new(
-                cont_var_dict_template, discrete_variable_dict, length_dict
-            )
-            Verifier.apply_cont_var_updater(cont_var_dict_template, cont_var_updater)
-            guard_can_satisfied = guard_expression.evaluate_guard_disc(
-                agent, discrete_variable_dict, cont_var_dict_template, track_map
-            )
-            if not guard_can_satisfied:
-                continue
-            agent_guard_dict[agent_id].append(
-                (guard_expression, cont_var_updater, copy.deepcopy(discrete_variable_dict), path)
-            )
+        # What the discrete part of each agent's view was when its guards were last unrolled
+        sensed_disc = {}
+
+        def possible_guards(agent, cont_var_dict_template, sensed_disc_vars, length_dict):
+            """The guards of the agent that its view does not rule out already"""
+            guards = []
+            for path_idx, (path_agent, path) in enumerate(paths):
+                if path_agent is not agent:
+                    continue
+                discrete_variable_dict = copy.deepcopy(sensed_disc_vars)
+                # TODO-PARSER: Get equivalent for this function
+                # Construct the guard expression
+                guard_expression = GuardExpressionAst([path.cond_veri], path_idx)
 
+                cont_var_updater = guard_expression.parse_any_all_new(
+                    cont_var_dict_template, discrete_variable_dict, length_dict
+                )
+                Verifier.apply_cont_var_updater(cont_var_dict_template, cont_var_updater)
+                guard_can_satisfied = guard_expression.evaluate_guard_disc(
+                    agent, discrete_variable_dict, cont_var_dict_template, track_map
+                )
+                if not guard_can_satisfied:
+                    continue
+                guards.append((guard_expression, cont_var_updater, discrete_variable_dict, path))
+            return guards
 
         # pp(("trace len", trace_length, {a: len(t) for a, t in node.trace.items()}))
         guard_hits = []
@@ -951,6 +945,12 @@ class Verifier:
                 # if np.array(agent_state).ndim != 2:
                 #     pp(("weird state", agent_id, agent_state))
                 cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
+                # The sensor may show other agents than at the previous index
+                if sensed_disc.get(agent_id) != repr((len_dict, disc_vars)):
+                    sensed_disc[agent_id] = repr((len_dict, disc_vars))
+                    agent_guard_dict[agent_id] = possible_guards(
+                        agent, copy.deepcopy(cont_vars), disc_vars, len_dict
+                    )
                 resets = defaultdict(list)
                 contained_paths = []
                 # Check safety conditions
-- 
2.43.0


From c26390c5b6ff5dd73941020bb9044a83f1dbf2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 27/46] fix: simulated trees with nodes at the maximum height
 can be loaded

---
 verse/analysis/analysis_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 50ebc2b..9dd2909 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -226,7 +226,7 @@ class AnalysisTreeNode:
     def _from_dict(data: Dict[str, Any]) -> "AnalysisTreeNode":
         return AnalysisTreeNode(
             trace=(
-                {aid: np.array(data["trace"][aid]) for aid in data["agent"].keys()}
+                {aid: np.array(trace) for aid, trace in data["trace"].items()}
                 if data["type"] == "simtrace"
                 else data["trace"]
             ),
-- 
2.43.0


From 3a4e2829e91993d49efa20a81e79d2f0957e2758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 28/46] fix: direct simulation sees no transition where the map
 returns the current track

---
 verse/analysis/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 613749c..429865f 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -767,12 +767,13 @@ class Simulator:
                     output = dl.decisionLogic(*arg_list)
                     # pylint: enable=E1101
                     # output = convertEnumToStr(output, agent, dl)
-                    # Check if output is the same as ego
-                    if env[EGO] != output:
+                    # Check if output is the same as ego. The map gives tracks as strings
+                    ego = convertEnumToStr(env[EGO], agent, dl)
+                    output = convertEnumToStr(output, agent, dl)
+                    if ego != output:
                         # If not, a transition happen, get source and destination, break
                         next_init = []
                         pure_dest = []
-                        output = convertEnumToStr(output, agent, dl)
                         for field in env[EGO].__dict__:
                             if disc_field(field, agent):
                                 pure_dest.append(getattr(output, field))
-- 
2.43.0


From f7a887b2f0867d3ca8245f3dd6dc04bc996542f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 29/46] fix: trees keep the agents and parameters they were
 computed with

---
 verse/scenario/scenario.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index be4e09f..d29aa36 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -248,8 +248,8 @@ class Scenario:
                 for aid, modes in self.init_mode_dict.items()
             },
             static={aid: [elem.name for elem in modes] for aid, modes in self.static_dict.items()},
-            uncertain_param=self.uncertain_param_dict,
-            agent=self.agent_dict,
+            uncertain_param=dict(self.uncertain_param_dict),
+            agent=dict(self.agent_dict),
             type=AnalysisTreeNodeType.SIM_TRACE,
             ndigits=10,
         )
@@ -287,8 +287,8 @@ class Scenario:
                         for aid, modes in self.init_mode_dict.items()
                     },
                     static={aid: [elem.name for elem in modes] for aid, modes in self.static_dict.items()},
-                    uncertain_param=self.uncertain_param_dict,
-                    agent=self.agent_dict,
+                    uncertain_param=dict(self.uncertain_param_dict),
+                    agent=dict(self.agent_dict),
                     type=AnalysisTreeNodeType.SIM_TRACE,
                     ndigits=10,
                 )
@@ -322,8 +322,8 @@ class Scenario:
                 for aid, modes in self.init_mode_dict.items()
             },
             static={aid: [elem.name for elem in modes] for aid, modes in self.static_dict.items()},
-            uncertain_param=self.uncertain_param_dict,
-            agent=self.agent_dict,
+            uncertain_param=dict(self.uncertain_param_dict),
+            agent=dict(self.agent_dict),
             type=AnalysisTreeNodeType.SIM_TRACE,
             ndigits=10,
         )
@@ -356,8 +356,8 @@ class Scenario:
                 for aid, modes in self.init_mode_dict.items()
             },
             static={aid: [elem.name for elem in modes] for aid, modes in self.static_dict.items()},
-            uncertain_param=self.uncertain_param_dict,
-            agent=self.agent_dict,
+            uncertain_param=dict(self.uncertain_param_dict),
+            agent=dict(self.agent_dict),
             type=AnalysisTreeNodeType.REACH_TUBE,
             ndigits=10,
         )
@@ -403,8 +403,8 @@ class Scenario:
                 for aid, modes in self.init_mode_dict.items()
             },
             static={aid: [elem.name for elem in modes] for aid, modes in self.static_dict.items()},
-            uncertain_param=self.uncertain_param_dict,
-            agent=self.agent_dict,
+            uncertain_param=dict(self.uncertain_param_dict),
+            agent=dict(self.agent_dict),
             type=AnalysisTreeNodeType.REACH_TUBE,
             ndigits=10,
         )
-- 
2.43.0


From 34ee6521f1b280f8febcb0d86615e3e770a639d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 30/46] fix: verification also takes transitions that reset
 only some of the variables

Where the guards of two variables hold on different parts of the set, the
states that satisfy only one of them take a transition of their own.
---
 verse/analysis/verifier.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 53b6119..f80befb 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -889,6 +889,42 @@ class Verifier:
                 guards.append((guard_expression, cont_var_updater, discrete_variable_dict, path))
             return guards
 
+        def satisfiable(condition, agent, view):
+            """Can some state of the agent's view satisfy the condition?"""
+            cont_vars, disc_vars, len_dict = copy.deepcopy(view)
+            guard = GuardExpressionAst([condition])
+            cont_var_updater = guard.parse_any_all_new(cont_vars, disc_vars, len_dict)
+            Verifier.apply_cont_var_updater(cont_vars, cont_var_updater)
+            stars = config.reachability_method == ReachabilityMethod.STAR_SETS
+            return (
+                guard.evaluate_guard_disc(agent, disc_vars, cont_vars, track_map)
+                and guard.evaluate_guard_hybrid(agent, disc_vars, cont_vars, track_map, stars)
+                and guard.evaluate_guard_cont(agent, cont_vars, track_map, stars)[0]
+            )
+
+        def partial_resets(agent, resets, view):
+            """Combinations that reset only some of the variables, for those states of the set
+            that satisfy no guard of the other variables"""
+            combinations = []
+            for kept in itertools.product([True, False], repeat=len(resets)):
+                if all(kept) or not any(kept):
+                    continue
+                skipped = [r[-1] for keep, rs in zip(kept, resets.values()) if not keep for r in rs]
+                skipped_conds = set(unparse(path.cond_veri) for path in skipped)
+                for combination in itertools.product(
+                    *(rs for keep, rs in zip(kept, resets.values()) if keep)
+                ):
+                    if any(unparse(r[-1].cond_veri) in skipped_conds for r in combination):
+                        continue
+                    condition = ast.BoolOp(
+                        op=ast.And(),
+                        values=[r[-1].cond_veri for r in combination]
+                        + [ast.UnaryOp(op=ast.Not(), operand=path.cond_veri) for path in skipped],
+                    )
+                    if satisfiable(condition, agent, view):
+                        combinations.append(combination)
+            return combinations
+
         # pp(("trace len", trace_length, {a: len(t) for a, t in node.trace.items()}))
         guard_hits = []
         guard_hit = False
@@ -951,6 +987,7 @@ class Verifier:
                     agent_guard_dict[agent_id] = possible_guards(
                         agent, copy.deepcopy(cont_vars), disc_vars, len_dict
                     )
+                view = copy.deepcopy((cont_vars, disc_vars, len_dict))
                 resets = defaultdict(list)
                 contained_paths = []
                 # Check safety conditions
@@ -1043,6 +1080,7 @@ class Verifier:
                     combined_reset_list = list(itertools.product(*resets.values()))
                     if len(combined_reset_list) == 1 and combined_reset_list[0] == ():
                         continue
+                    combined_reset_list += partial_resets(agent, resets, view)
                     for i in range(len(combined_reset_list)):
                         # Compute reset_idx
                         reset_idx = []
-- 
2.43.0


From 0dbb7076cf26dc5a4dfa3bcaa2128fe97ebc3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:32 +0000
Subject: [PATCH 31/46] fix: a guard window does not close before all initial
 sets of the node have entered the tube

---
 verse/analysis/verifier.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index f80befb..5d9e876 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -522,8 +522,13 @@ class Verifier:
 
         # Get all possible transitions to next mode
         # FIXME: weird bug using new dryvr_disc where length of next_init is 4096 even though all inits are the same
+        # Index at which the last of the initial sets enters the tube
+        entered = 0
+        if consts.reachability_method in (ReachabilityMethod.DRYVR, ReachabilityMethod.STAR_SETS):
+            seg_length = consts.init_seg_length
+            entered = max((len(i) - 1) // seg_length * seg_length for i in node.init.values())
         asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
-            config, first_idx, paths_to_sim, node, consts.lane_map, consts.sensor
+            config, first_idx, paths_to_sim, node, consts.lane_map, consts.sensor, entered
         )
         if asserts != None:
             asserts, idx = asserts
@@ -848,7 +853,13 @@ class Verifier:
 
     @staticmethod
     def get_transition_verify_opt(
-        config: "ScenarioConfig", first_idx: int, new_paths: PathDiffs, node: AnalysisTreeNode, track_map, sensor
+        config: "ScenarioConfig",
+        first_idx: int,
+        new_paths: PathDiffs,
+        node: AnalysisTreeNode,
+        track_map,
+        sensor,
+        entered: int = 0,
     ) -> Tuple[
         Optional[Dict[str, List[str]]],
         Optional[Dict[str, List[Tuple[str, List[str], List[float]]]]],
@@ -1122,12 +1133,13 @@ class Verifier:
             if hits != []:
                 guard_hits.append((hits, state_dict, idx))
                 guard_hit = True
-            elif guard_hit:
+            elif guard_hit and idx >= entered:
                 break
             for agent_id, labels in asserts.items():
                 passed_asserts[agent_id] = dedup(passed_asserts.get(agent_id, []) + labels)
                 passed_idx = idx
-            if any_contained:
+            # Guards that hold on all of the tube say nothing about sets that enter it later
+            if any_contained and idx >= entered:
                 break
         reset_dict = {}  # defaultdict(lambda: defaultdict(list))
         for hits, all_agent_state, hit_idx in guard_hits:
-- 
2.43.0


From 053b86bc620df43184edbdf9ffcd36b07cb9ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 32/46] fix: example agents take exactly time_bound/time_step
 steps

---
 verse/agents/example_agent/car_agent.py    | 4 ++--
 verse/agents/example_agent/origin_agent.py | 6 +++---
 verse/agents/example_agent/robot_agent.py  | 2 +-
 verse/agents/example_agent/sign_agent.py   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/verse/agents/example_agent/car_agent.py b/verse/agents/example_agent/car_agent.py
index ba817bf..84368ce 100644
--- a/verse/agents/example_agent/car_agent.py
+++ b/verse/agents/example_agent/car_agent.py
@@ -51,7 +51,7 @@ class NPCAgent(BaseAgent):
         self, mode: Tuple[str], init, time_bound, time_step, lane_map: LaneMap = None
     ) -> TraceType:
         time_bound = float(time_bound)
-        num_points = int(np.ceil(time_bound / time_step))
+        num_points = int(np.ceil(round(time_bound / time_step, 8)))
         trace = np.zeros((num_points + 1, 1 + len(init)))
         trace[1:, 0] = [round(i * time_step, 10) for i in range(num_points)]
         trace[0, 1:] = init
@@ -125,7 +125,7 @@ class CarAgent(BaseAgent):
         self, mode: List[str], init, time_bound, time_step, lane_map: LaneMap = None
     ) -> TraceType:
         time_bound = float(time_bound)
-        num_points = int(np.ceil(time_bound / time_step))
+        num_points = int(np.ceil(round(time_bound / time_step, 8)))
         trace = np.zeros((num_points + 1, 1 + len(init)))
         trace[1:, 0] = [round(i * time_step, 10) for i in range(num_points)]
         trace[0, 1:] = init
diff --git a/verse/agents/example_agent/origin_agent.py b/verse/agents/example_agent/origin_agent.py
index 34ac93f..286cbed 100644
--- a/verse/agents/example_agent/origin_agent.py
+++ b/verse/agents/example_agent/origin_agent.py
@@ -26,7 +26,7 @@ class vanderpol_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
         # note: digit of time
         init = initialCondition
@@ -70,7 +70,7 @@ class thermo_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
@@ -163,7 +163,7 @@ class craft_agent(BaseAgent):
         self, mode: List[str], initialCondition, time_bound, time_step, lane_map: LaneMap = None
     ) -> np.ndarray:
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
diff --git a/verse/agents/example_agent/robot_agent.py b/verse/agents/example_agent/robot_agent.py
index 4832ddd..f72c8c7 100644
--- a/verse/agents/example_agent/robot_agent.py
+++ b/verse/agents/example_agent/robot_agent.py
@@ -22,7 +22,7 @@ class RobotAgent(BaseAgent):
         # TODO: P1. Should TC_simulate really be part of the agent definition or should it be something more generic?
         # TODO: P2. Looks like this should be a global parameter; some config file should be setting this.
         time_bound = float(time_bound)
-        number_points = int(np.ceil(time_bound / time_step))
+        number_points = int(np.ceil(round(time_bound / time_step, 8)))
         t = [round(i * time_step, 10) for i in range(0, number_points)]
 
         init = initialCondition
diff --git a/verse/agents/example_agent/sign_agent.py b/verse/agents/example_agent/sign_agent.py
index 2f79580..fa0b44d 100644
--- a/verse/agents/example_agent/sign_agent.py
+++ b/verse/agents/example_agent/sign_agent.py
@@ -9,7 +9,7 @@ class SignAgent(BaseAgent):
         self.decision_logic = ControllerIR.empty()
 
     def TC_simulate(self, mode, init, time_horizon, time_step, map=None):
-        number_points = int(np.ceil(float(time_horizon) / time_step))
+        number_points = int(np.ceil(round(float(time_horizon) / time_step, 8)))
         t = [i * time_step for i in range(0, number_points)]
         trace = [[0] + init] + [[i + time_step] + init for i in t]
         return np.array(trace)
-- 
2.43.0


From 4ae4d5587c74b4512894009c636b1f2c50d8bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 33/46] fix: NPC agents steer by the wrapped heading error

---
 verse/agents/example_agent/car_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/agents/example_agent/car_agent.py b/verse/agents/example_agent/car_agent.py
index 84368ce..374227b 100644
--- a/verse/agents/example_agent/car_agent.py
+++ b/verse/agents/example_agent/car_agent.py
@@ -41,7 +41,7 @@ class NPCAgent(BaseAgent):
         vehicle_lane = mode[1]
         vehicle_pos = np.array([x, y])
         d = -lane_map.get_lateral_distance(vehicle_lane, vehicle_pos)
-        psi = lane_map.get_lane_heading(vehicle_lane, vehicle_pos) - theta
+        psi = wrap_to_pi(lane_map.get_lane_heading(vehicle_lane, vehicle_pos) - theta)
         steering = psi + np.arctan2(0.45 * d, v)
         steering = np.clip(steering, -0.61, 0.61)
         a = 0
-- 
2.43.0


From 51cd8393600078e2902259042a8d2dac27d4f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 34/46] fix: a position belongs to the lane segment it is
 closest to on either side

---
 verse/map/lane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/map/lane.py b/verse/map/lane.py
index 226b253..63b6a86 100644
--- a/verse/map/lane.py
+++ b/verse/map/lane.py
@@ -29,10 +29,10 @@ class Lane:
             logitudinal, lateral = segment.local_coordinates(position)
             is_on = 0 - Lane.COMPENSATE <= logitudinal < segment.length
             if is_on:
-                if lateral < min_lateral:
+                if abs(lateral) < min_lateral:
                     idx = seg_idx
                     seg = segment
-                    min_lateral = lateral
+                    min_lateral = abs(lateral)
         return idx, seg
 
     def get_heading(self, position: np.ndarray) -> float:
-- 
2.43.0


From e922e61a676ccd2b3dec3fba33d7b2f0a2eb9199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 35/46] fix: lane segments can be rebuilt from their
 configuration

---
 verse/map/lane_segment.py    | 2 ++
 verse/map/lane_segment_3d.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/verse/map/lane_segment.py b/verse/map/lane_segment.py
index 3c3f679..5a7ab69 100644
--- a/verse/map/lane_segment.py
+++ b/verse/map/lane_segment.py
@@ -218,6 +218,7 @@ class StraightLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -295,6 +296,7 @@ class CircularLane(AbstractLane):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
                 "start_phase": self.start_phase,
diff --git a/verse/map/lane_segment_3d.py b/verse/map/lane_segment_3d.py
index 0f43223..4fe621a 100644
--- a/verse/map/lane_segment_3d.py
+++ b/verse/map/lane_segment_3d.py
@@ -279,6 +279,7 @@ class StraightLane_3d(AbstractLane_3d):
         return {
             "class_path": get_class_path(self.__class__),
             "config": {
+                "id": self.id,
                 "start": to_serializable(self.start),
                 "end": to_serializable(self.end),
                 "width": self.width,
@@ -474,10 +475,12 @@ class CircularLane_3d_v1(AbstractLane_3d):
 
     def to_config(self) -> dict:
         return {
-            "class_path": get_class_path(self.__class__),
+            "class_path": get_class_path(CircularLane_3d_v1),
             "config": {
+                "id": self.id,
                 "center": to_serializable(self.center),
                 "radius": self.radius,
+                "norm_vec": to_serializable(self.norm_vec),
                 "start_phase": self.start_phase,
                 "end_phase": self.end_phase,
                 "right_rotate": self.right_rotate,
-- 
2.43.0


From ec84847a14c51ed2b5b273c7c7ac2b5f520ac0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 36/46] fix: SimpleMap4Switch2 permits switching one lane to
 the left

---
 verse/map/example_map/simple_map2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/map/example_map/simple_map2.py b/verse/map/example_map/simple_map2.py
index 3bc84dd..1228e01 100644
--- a/verse/map/example_map/simple_map2.py
+++ b/verse/map/example_map/simple_map2.py
@@ -114,7 +114,7 @@ class SimpleMap4Switch2(LaneMap):
                 ind = int(lane_idx[1])
                 if typ == "Left" and ind > 0:
                     new_ind = ind - 1
-                if typ == "Left2" and ind > 1:
+                elif typ == "Left2" and ind > 1:
                     new_ind = ind - 2
                 elif typ == "Right" and ind < 4:
                     new_ind = ind + 1
-- 
2.43.0


From 6a7bf87fe70e72a23745e417634be4f49594fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 37/46] fix: 3d maps report a lane change without an entry as
 not possible

---
 verse/map/example_map/map_tacas.py     | 6 ++++--
 verse/map/example_map/simple_map_3d.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/verse/map/example_map/map_tacas.py b/verse/map/example_map/map_tacas.py
index 6425ea2..3797470 100644
--- a/verse/map/example_map/map_tacas.py
+++ b/verse/map/example_map/map_tacas.py
@@ -157,7 +157,8 @@ class M5(LaneMap_3d):
             agent_mode_src = agent_mode_src.name
         if not isinstance(agent_mode_dest, str):
             agent_mode_dest = agent_mode_dest.name
-        return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
+        # No entry: the lane change is not possible
+        return self.h_dict.get((lane_idx, agent_mode_src, agent_mode_dest))
 
     def h_exist(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> bool:
         if not isinstance(lane_idx, str):
@@ -243,7 +244,8 @@ class M6(LaneMap_3d):
         }
 
     def h_func(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> str:
-        return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
+        # No entry: the lane change is not possible
+        return self.h_dict.get((lane_idx, agent_mode_src, agent_mode_dest))
 
     def h_exist_func(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> bool:
         if (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict:
diff --git a/verse/map/example_map/simple_map_3d.py b/verse/map/example_map/simple_map_3d.py
index facee2a..2c229bc 100644
--- a/verse/map/example_map/simple_map_3d.py
+++ b/verse/map/example_map/simple_map_3d.py
@@ -189,7 +189,8 @@ class SimpleMap6(LaneMap_3d):
         }
 
     def h(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> str:
-        return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
+        # No entry: the lane change is not possible
+        return self.h_dict.get((lane_idx, agent_mode_src, agent_mode_dest))
 
     def h_exist(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> bool:
         if (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict:
@@ -238,7 +239,8 @@ class SimpleMap7(LaneMap_3d):
         }
 
     def h(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> str:
-        return self.h_dict[(lane_idx, agent_mode_src, agent_mode_dest)]
+        # No entry: the lane change is not possible
+        return self.h_dict.get((lane_idx, agent_mode_src, agent_mode_dest))
 
     def h_exist(self, lane_idx: str, agent_mode_src: str, agent_mode_dest: str) -> bool:
         if (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict:
-- 
2.43.0


From b269cf125061e967d1e8c3974e959d50bf99ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 38/46] fix: h_exist agrees with h for maps that compute h

---
 verse/map/lane_map.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/verse/map/lane_map.py b/verse/map/lane_map.py
index 0a14275..89bcc72 100644
--- a/verse/map/lane_map.py
+++ b/verse/map/lane_map.py
@@ -115,7 +115,4 @@ class LaneMap:
             agent_mode_src = agent_mode_src.name
         if isinstance(agent_mode_dest, Enum):
             agent_mode_dest = agent_mode_dest.name
-        if (lane_idx, agent_mode_src, agent_mode_dest) in self.h_dict:
-            return True
-        else:
-            return False
+        return self.h(lane_idx, agent_mode_src, agent_mode_dest) is not None
-- 
2.43.0


From db3d6f79c742275e695312632acb2c5209851191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 39/46] fix: guards see every lane segment a set of positions
 can be on

---
 verse/automaton/guard.py | 114 ++++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 55 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 98e653d..bf320ce 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -472,18 +472,14 @@ class GuardExpressionAst:
                                 arg1_upper.append(max_val) 
                         vehicle_pos = (arg1_lower, arg1_upper)
 
-                        # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
-
-                        # Compute the set of possible lateral values with respect to all possible segments
-                        lateral_set1 = self._handle_lateral_set(lane_seg1, np.array(vehicle_pos))
-                        lateral_set2 = self._handle_lateral_set(lane_seg2, np.array(vehicle_pos))
-
-                        # Use the union of two sets as the set of possible lateral positions
+                        # Use the union over the segments the vehicle can be on as the set of
+                        # possible lateral positions
+                        segments = self._get_lane_segments(
+                            track_map, vehicle_lane, np.array(vehicle_pos)
+                        )
                         lateral_set = [
-                            min(lateral_set1[0], lateral_set2[0]),
-                            max(lateral_set1[1], lateral_set2[1]),
+                            min(lateral[0] for _, lateral in segments),
+                            max(lateral[1] for _, lateral in segments),
                         ]
                         if agent_vars != {}: #stars:
                             from verse.stars.starset import StarSet
@@ -542,21 +538,14 @@ class GuardExpressionAst:
                                 arg1_upper.append(max_val) 
                         vehicle_pos = (arg1_lower, arg1_upper)
 
-                        # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
-
-                        # Compute the set of possible longitudinal values with respect to all possible segments
-                        longitudinal_set1 = self._handle_longitudinal_set(
-                            lane_seg1, np.array(vehicle_pos)
-                        )
-                        longitudinal_set2 = self._handle_longitudinal_set(
-                            lane_seg2, np.array(vehicle_pos)
+                        # Use the union over the segments the vehicle can be on as the set of
+                        # possible longitudinal positions
+                        segments = self._get_lane_segments(
+                            track_map, vehicle_lane, np.array(vehicle_pos)
                         )
-                        # Use the union of two sets as the set of possible longitudinal positions
                         longitudinal_set = [
-                            min(longitudinal_set1[0], longitudinal_set2[0]),
-                            max(longitudinal_set1[1], longitudinal_set2[1]),
+                            min(longitudinal[0] for longitudinal, _ in segments),
+                            max(longitudinal[1] for longitudinal, _ in segments),
                         ]
 
                         if agent_vars != {}: #stars:
@@ -604,7 +593,31 @@ class GuardExpressionAst:
         else:
             raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
 
+    def _get_lane_segments(self, track_map: LaneMap, lane_idx: str, position: np.ndarray):
+        """
+        The sets of longitudinal and lateral positions in the lane that a vehicle in the box can
+        have, for every segment of the lane that get_lane_segment selects for some point of the box
+        """
+        lane = track_map.lane_dict[track_map.get_phys_lane(lane_idx)]
+        possible = []
+        closest = float("inf")
+        start = 0
+        for lane_seg in lane.segment_list:
+            low, high = self._handle_longitudinal_set(lane_seg, position)
+            lateral = self._handle_lateral_set(lane_seg, position)
+            if high >= -lane.COMPENSATE and low < lane_seg.length:
+                if low >= -lane.COMPENSATE and high < lane_seg.length:
+                    # No point of the box is on a segment farther away than this one
+                    closest = min(closest, max(abs(lateral[0]), abs(lateral[1])))
+                low, high = max(low, -lane.COMPENSATE), min(high, lane_seg.length)
+                possible.append(((start + low, start + high), lateral))
+            start += lane_seg.length
+        if not possible:
+            raise ValueError(f"Positions between {position[0]} and {position[1]} are not on {lane_idx}")
+        return [(lon, lat) for lon, lat in possible if max(lat[0], -lat[1], 0) <= closest]
+
     def _handle_longitudinal_set(self, lane_seg: AbstractLane, position: np.ndarray) -> List[float]:
+        """The longitudinal positions of a box in the coordinates of the segment"""
         if lane_seg.type == "Straight":
             # Delta lower
             delta0 = position[0, :] - lane_seg.start
@@ -617,8 +630,6 @@ class GuardExpressionAst:
             longitudinal_high = max(
                 delta0[0] * lane_seg.direction[0], delta1[0] * lane_seg.direction[0]
             ) + max(delta0[1] * lane_seg.direction[1], delta1[1] * lane_seg.direction[1])
-            longitudinal_low += lane_seg.longitudinal_start
-            longitudinal_high += lane_seg.longitudinal_start
 
             assert longitudinal_high >= longitudinal_low
             return longitudinal_low, longitudinal_high
@@ -628,38 +639,31 @@ class GuardExpressionAst:
             # Delta upper
             delta1 = position[1, :] - lane_seg.center
 
-            phi0 = np.min(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-            phi1 = np.max(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
+            if np.all(delta0 <= 0) and np.all(delta1 >= 0):
+                # The center of the segment is in the box: every direction is possible
+                phi0, phi1 = -np.pi, np.pi
+            else:
+                # The directions of the corners, relative to the one of the middle of the box
+                middle = (delta0 + delta1) / 2
+                middle_phi = np.arctan2(middle[1], middle[0])
+                corners = [
+                    wrap_to_pi(np.arctan2(dy, dx) - middle_phi)
+                    for dx in (delta0[0], delta1[0])
+                    for dy in (delta0[1], delta1[1])
                 ]
-            )
+                middle_phi = wrap_to_pi(middle_phi - lane_seg.start_phase)
+                phi0, phi1 = middle_phi + min(corners), middle_phi + max(corners)
+                if phi0 < -np.pi or phi1 > np.pi:
+                    # The box lies across the direction opposite to the start of the segment
+                    phi0, phi1 = -np.pi, np.pi
 
-            phi0 = lane_seg.start_phase + wrap_to_pi(phi0 - lane_seg.start_phase)
-            phi1 = lane_seg.start_phase + wrap_to_pi(phi1 - lane_seg.start_phase)
-            longitudinal_low = (
-                min(
-                    lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-                    lane_seg.direction * (phi1 - lane_seg.start_phase) * lane_seg.radius,
-                )
-                + lane_seg.longitudinal_start
+            longitudinal_low = min(
+                lane_seg.direction * phi0 * lane_seg.radius,
+                lane_seg.direction * phi1 * lane_seg.radius,
             )
-            longitudinal_high = (
-                max(
-                    lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-                    lane_seg.direction * (phi1 - lane_seg.start_phase) * lane_seg.radius,
-                )
-                + lane_seg.longitudinal_start
+            longitudinal_high = max(
+                lane_seg.direction * phi0 * lane_seg.radius,
+                lane_seg.direction * phi1 * lane_seg.radius,
             )
 
             assert longitudinal_high >= longitudinal_low
-- 
2.43.0


From 30618eb1bb84ff911988816a35ab3dcfb2ebfaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 40/46] fix: direct simulation reports violated assertions that
 have no message

---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 429865f..add1d0b 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -784,7 +784,7 @@ class Simulator:
                     # If assertion error happen, means assert hit happen
                     # Get the which assert hit happen and return
                     _, error, _ = sys.exc_info()
-                    assertion_label = error.args[0]
+                    assertion_label = error.args[0] if error.args else "<assert>"
                     all_asserts[agent_id] = assertion_label
                     continue
 
-- 
2.43.0


From ec790bc68c5f2c18fc1e19059761cd225b2ef455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:00 +0000
Subject: [PATCH 41/46] fix: map queries work in helper functions with
 parameters of any name

---
 verse/parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 6fd4674..17bcbbc 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -892,8 +892,8 @@ def proc(node: ast.AST, env: Env) -> Any:
                 if len(node.args) > 1:
                     raise ValueError("too many args to `copy.deepcopy`")
                 return proc(node.args[0], env)
-            node.args = [proc(a, env) for a in node.args]
-            return node
+            # The object may be a parameter of a helper function
+            return ast.Call(fun, [proc(a, env) for a in node.args], node.keywords)
         if isinstance(fun, ast.arg):
             if fun.arg == "copy.deepcopy":
                 raise Exception("unreachable")
-- 
2.43.0


From 0ed80217d87da09f10e6aceedbbb2113eb0803ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 42/46] fix: arguments of helper functions are substituted once
 in shared expressions

---
 verse/parser/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 17bcbbc..7f8ba3e 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -287,9 +287,12 @@ class ArgSubstituter(ast.NodeTransformer):
     def __init__(self, args: Dict[str, ast.expr]):
         super().__init__()
         self.args = args
+        # Parts of an expression can be shared, they are not to be substituted once more
+        values = [v for v in args.values() if isinstance(v, ast.AST)]
+        self.inserted = set(id(n) for v in values for n in ast.walk(v))
 
     def visit_arg(self, node):
-        if node.arg in self.args:
+        if node.arg in self.args and id(node) not in self.inserted:
             return self.args[node.arg]
         self.generic_visit(node)
         return node
-- 
2.43.0


From 02e96ef65e9a92f42b70bbd558cfcd296f3b4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 43/46] fix: the global bloating handles tubes of a single step

---
 verse/analysis/dryvr.py      | 4 ++++
 verse/analysis/dryvr_disc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/verse/analysis/dryvr.py b/verse/analysis/dryvr.py
index 1af652d..0d55e5e 100644
--- a/verse/analysis/dryvr.py
+++ b/verse/analysis/dryvr.py
@@ -74,6 +74,10 @@ def get_reachtube_segment(
         points[:, :, 1] = np.maximum(points[:, :, 1], _EPSILON)
         points[:, :, 1] = np.log(points[:, :, 1])
         for dim_ind in range(1, ndims):
+            if trace_len == 2 and initial_radii[dim_ind - 1] == 0:
+                # a single point spans no hull
+                df[1, dim_ind] = np.exp(points[dim_ind - 1, 1, 1])
+                continue
             new_min = min(np.min(points[dim_ind - 1, 1:, 1]) + _TRUE_MIN_CONST, -10)
             if initial_radii[dim_ind - 1] == 0:
                 # exclude initial set, then add true minimum points
diff --git a/verse/analysis/dryvr_disc.py b/verse/analysis/dryvr_disc.py
index 7a3c6a6..7a8e1ae 100644
--- a/verse/analysis/dryvr_disc.py
+++ b/verse/analysis/dryvr_disc.py
@@ -59,6 +59,10 @@ def get_reachtube_segment(training_traces: np.ndarray, initial_radii: np.ndarray
         points[:, :, 1] = np.maximum(points[:, :, 1], _EPSILON)
         points[:, :, 1] = np.log(points[:, :, 1])
         for dim_ind in range(1, ndims):
+            if trace_len == 2 and initial_radii[dim_ind - 1] == 0:
+                # a single point spans no hull
+                df[1, dim_ind] = np.exp(points[dim_ind - 1, 1, 1])
+                continue
             new_min = min(np.min(points[dim_ind - 1, 1:, 1]) + _TRUE_MIN_CONST, -10)
             if initial_radii[dim_ind - 1] == 0:
                 # exclude initial set, then add true minimum points
-- 
2.43.0


From 86601101bcf84d10e3679ddfed878e7d1c3e7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 44/46] fix: the discrete and mixed-monotone methods start from
 all initial sets of a node

---
 verse/analysis/mixmonotone.py |  6 ++++--
 verse/analysis/verifier.py    | 29 ++---------------------------
 2 files changed, 6 insertions(+), 29 deletions(-)

diff --git a/verse/analysis/mixmonotone.py b/verse/analysis/mixmonotone.py
index fcdeea5..267c22c 100644
--- a/verse/analysis/mixmonotone.py
+++ b/verse/analysis/mixmonotone.py
@@ -8,6 +8,8 @@ from sympy.core import *
 
 from scipy.integrate import ode
 
+from verse.analysis.incremental import combine_all
+
 
 def find_min(expr_func, jac_func, var_range, num_var, args, idx):
     bounds = []
@@ -55,7 +57,7 @@ def find_max_symbolic(expr, var_range):
 def compute_reachtube_mixmono_disc(
     initial_set, uncertain_var_bound, time_horizon, time_step, decomposition
 ):
-    initial_set = initial_set[0]
+    initial_set = combine_all(initial_set)
     number_points = int(np.ceil(time_horizon / time_step))
     t = [round(i * time_step, 10) for i in range(0, number_points)]
     trace = [[0] + initial_set[0] + initial_set[1]]
@@ -96,7 +98,7 @@ def compute_reachtube_mixmono_disc(
 def compute_reachtube_mixmono_cont(
     initial_set, uncertain_var_bound, time_horizon, time_step, decomposition
 ):
-    initial_set = initial_set[0]
+    initial_set = combine_all(initial_set)
     num_var = len(initial_set[0])
     num_uncertain_var = len(uncertain_var_bound[0])
 
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 5d9e876..a73c63c 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -431,9 +431,7 @@ class Verifier:
                     else:
                         sim_trace_num = SIMTRACENUM              
 
-                    init = inits[0] # FIXME: this makes no sense, should instead mirror what regular dryvr does; assuming this was put here as a placeholder
-                    if isinstance(init, np.ndarray):
-                        init = init.tolist()
+                    init = combine_all(inits)
                     cur_bloated_tube = calc_bloated_tube_dryvr(
                         mode,
                         init,
@@ -449,36 +447,13 @@ class Verifier:
                     if isinstance(cur_bloated_tube, np.ndarray):
                         cur_bloated_tube = cur_bloated_tube.tolist()
 
-                    # NOTE: fixing the issue listed above, current solution is the tighest but also slowest and has no compatibility with the combine_seg_length parameter
-                    # TODO: add compatibility with init_combine_seg or whatever
-                    # combined_inits = []
-                    # print(f'{len(inits)} traces to combine')
-                    # for init in inits:
-                    #     if isinstance(init, np.ndarray):
-                    #         init = init.tolist()
-                    #     combined_inits.append(init)
-
-                    # partitioned_traces = []
-                    # # TODO: parallelize this
-                    # for init in combined_inits:
-                    #     cur_bloated_tube = calc_bloated_tube_dryvr(
-                    #         mode, init, remain_time, consts.time_step, node.agent[agent_id].TC_simulate, 
-                    #         bloating_method, 100, sim_trace_num, lane_map=consts.lane_map, traces=traces
-                    #     )
-                    #     if isinstance(cur_bloated_tube, np.ndarray):
-                    #         cur_bloated_tube = cur_bloated_tube.tolist()
-                    #     partitioned_traces.append(cur_bloated_tube)
-                    
-                    # # Combine the results together
-                    # cur_bloated_tube = Verifier._union_traces(partitioned_traces, consts.reachability_method)
-
                 elif consts.reachability_method == ReachabilityMethod.NEU_REACH:
                     # pylint: disable=E0401
                     from verse.analysis.NeuReach.NeuReach_onestep_rect import postCont
                     # pylint: enable=E0401
                     cur_bloated_tube = postCont(
                         mode,
-                        inits[0],
+                        combine_all(inits),
                         remain_time,
                         consts.time_step,
                         node.agent[agent_id].TC_simulate,
-- 
2.43.0


From e9c47932a22bd73d16a113fccb6501f0814a3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:38 +0000
Subject: [PATCH 45/46] fix: mixed-monotone bounds are searched also when the
 ranges are narrow

---
 verse/analysis/mixmonotone.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/mixmonotone.py b/verse/analysis/mixmonotone.py
index 267c22c..79d64ec 100644
--- a/verse/analysis/mixmonotone.py
+++ b/verse/analysis/mixmonotone.py
@@ -19,8 +19,15 @@ def find_min(expr_func, jac_func, var_range, num_var, args, idx):
         x0.append(var_range[0, i])
     # print(expr_func(x0, args, idx))
     # print(jac_func(x0, args, idx).shape)
+    # The default tolerance would end the search at x0 when the ranges are narrow
     res = minimize(
-        expr_func, x0, args=(num_var, args, idx), bounds=bounds, jac=jac_func, method="L-BFGS-B"
+        expr_func,
+        x0,
+        args=(num_var, args, idx),
+        bounds=bounds,
+        jac=jac_func,
+        method="L-BFGS-B",
+        tol=1e-12,
     )
     # print(res)
     return res.fun
@@ -44,7 +51,7 @@ def find_min_symbolic(expr, var_range):
         jac.append(diff(expr, var))
     expr_func = lambdify([vars], expr)
     jac_func = lambdify([vars], jac)
-    res = minimize(expr_func, x0, bounds=bounds, jac=jac_func, method="L-BFGS-B")
+    res = minimize(expr_func, x0, bounds=bounds, jac=jac_func, method="L-BFGS-B", tol=1e-12)
     return res.fun
 
 
-- 
2.43.0


From a9d53152463e04de601e7c37e0dd803e1a93f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:48 +0000
Subject: [PATCH 46/46] fix: a guard window stays open for states the map holds
 back

---
 verse/analysis/verifier.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index a73c63c..f0694a6 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1067,6 +1067,7 @@ class Verifier:
                     if len(combined_reset_list) == 1 and combined_reset_list[0] == ():
                         continue
                     combined_reset_list += partial_resets(agent, resets, view)
+                    permitted_paths, blocked_paths = [], []
                     for i in range(len(combined_reset_list)):
                         # Compute reset_idx
                         reset_idx = []
@@ -1086,10 +1087,11 @@ class Verifier:
                             for dest in dest_list
                             if Verifier.map_permits(node, agent_id, dest, track_map)
                         ]
+                        used_paths = [r[-1] for r in combined_reset_list[i]]
                         if not dest_list:
+                            blocked_paths.extend(used_paths)
                             continue
-                        if any(r[-1] is p for r in combined_reset_list[i] for p in contained_paths):
-                            any_contained = True
+                        permitted_paths.extend(used_paths)
                         # a list of reset expression
                         hits.append(
                             (
@@ -1100,6 +1102,13 @@ class Verifier:
                                 reset_rect,
                             )
                         )
+                    # States that meet a guard stay when the map does not permit it along with another guard
+                    if any(
+                        any(p is q for q in permitted_paths)
+                        and not any(p is q for q in blocked_paths)
+                        for p in contained_paths
+                    ):
+                        any_contained = True
 
             if reduction_needed or combine_len > 1:
                 continue
-- 
2.43.0

