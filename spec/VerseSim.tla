------------------------------ MODULE VerseSim ------------------------------
(* The simulation engine as a state machine: a work list of tree nodes, each   *)
(* processed by exactly one of the actions Limit / Horizon / Unsafe / Switch / *)
(* Flow.  Sim trace validation (SimTrace) reuses `View`, the effect of         *)
(* processing one node, on recorded nodes; VerseSimMC explores the machine.    *)
EXTENDS VerseSem

NoHits(sc) == [a \in Agents(sc) |-> {}]

Join(h1, h2) == [a \in DOMAIN h1 |-> h1[a] \cup h2[a]]

(* Earliest grid index where somebody violates an assertion or may jump.  With the   *)
(* option to continue past violations (sc.uc) these are only collected (seen).       *)
RECURSIVE FirstEvent(_, _, _, _, _, _, _)
FirstEvent(sc, den, m, fl, k, last, seen) ==
  IF k > last THEN [k |-> last, hits |-> seen, mv |-> NoHits(sc), ev |-> "none"]
  ELSE LET w == WorldAt(sc, m, fl, k)
           hits == TLCEval([a \in Agents(sc) |-> Violated(sc, den, w, a)])
           mv == TLCEval([a \in Agents(sc) |-> Moves(sc, den, w, a)])
       IN IF sc.uc = 0 /\ \E a \in Agents(sc) : hits[a] # {}
          THEN [k |-> k, hits |-> hits, mv |-> NoHits(sc), ev |-> "unsafe"]
          ELSE IF \E a \in Agents(sc) : mv[a] # {}
          THEN [k |-> k, hits |-> TLCEval(Join(seen, hits)), mv |-> mv, ev |-> "switch"]
          ELSE FirstEvent(sc, den, m, fl, k + 1, last, TLCEval(Join(seen, hits)))

(* nd = [m, x, start, height].  The complete effect of processing it. *)
View(sc, den, nd) ==
  IF nd.height >= sc.H - 1
  THEN [kind |-> "limit", rows |-> 0, fl |-> <<>>, hits |-> NoHits(sc), kids |-> {}]
  ELSE IF nd.start >= sc.N
  THEN [kind |-> "horizon", rows |-> 0, fl |-> <<>>, hits |-> NoHits(sc), kids |-> {}]
  ELSE LET rem == sc.N - nd.start
           fl == [a \in Agents(sc) |-> FlowFrom(sc.ag[a], nd.m[a], nd.x[a], rem)]
           e == FirstEvent(sc, den, nd.m, fl, 0, rem, NoHits(sc))
           w == WorldAt(sc, nd.m, fl, e.k)
       IN [kind |-> IF e.ev = "none" THEN "flow" ELSE e.ev,
           rows |-> e.k + 1,
           fl |-> fl,
           hits |-> e.hits,
           kids |-> IF e.ev # "switch" THEN {}
                    ELSE { [m |-> s.m, x |-> s.x, start |-> nd.start + e.k, height |-> nd.height + 1]
                           : s \in Joint(sc, w, e.mv) }]

(* ---------------- direct simulation: the Python function itself decides ---------------- *)
Direct(sc, wt, a) ==
  IF sc.ag[a].dl # 1 THEN [m |-> wt.m[a], x |-> wt.x[a], fail |-> 0]
  ELSE LET w == Sensed(sc, wt, a) IN Exec(sc.ag[a].prog, sc.h, w, a, [m |-> w.m[a], x |-> SubSeq(w.x[a], 1, sc.ag[a].nv), fail |-> 0])

RECURSIVE FirstDirect(_, _, _, _, _)
FirstDirect(sc, m, fl, k, last) ==
  IF k > last THEN [k |-> last, hits |-> NoHits(sc), mv |-> NoHits(sc), ev |-> "none"]
  ELSE LET w == WorldAt(sc, m, fl, k)
           out == TLCEval([a \in Agents(sc) |-> Direct(sc, w, a)])
           mv == TLCEval([a \in Agents(sc) |-> IF out[a].m # w.m[a] \/ out[a].x # w.x[a] THEN {[m |-> out[a].m, x |-> out[a].x]} ELSE {}])
       IN IF \E a \in Agents(sc) : out[a].fail # 0
          THEN [k |-> k, hits |-> [a \in Agents(sc) |-> IF out[a].fail # 0 THEN {out[a].fail} ELSE {}], mv |-> NoHits(sc), ev |-> "unsafe"]
          ELSE IF \E a \in Agents(sc) : mv[a] # {} THEN [k |-> k, hits |-> NoHits(sc), mv |-> mv, ev |-> "switch"]
          ELSE FirstDirect(sc, m, fl, k + 1, last)

DirectView(sc, nd) ==
  IF nd.height >= sc.H - 1 \/ nd.start >= sc.N THEN View(sc, <<>>, nd)
  ELSE LET rem == sc.N - nd.start
           fl == [a \in Agents(sc) |-> FlowFrom(sc.ag[a], nd.m[a], nd.x[a], rem)]
           e == FirstDirect(sc, nd.m, fl, 0, rem)
           w == WorldAt(sc, nd.m, fl, e.k)
       IN [kind |-> IF e.ev = "none" THEN "flow" ELSE e.ev, rows |-> e.k + 1, fl |-> fl, hits |-> e.hits,
           kids |-> IF e.ev # "switch" THEN {}
                    ELSE { [m |-> s.m, x |-> s.x, start |-> nd.start + e.k, height |-> nd.height + 1] : s \in Joint(sc, w, e.mv) }]

Root(sc) == [m |-> [a \in Agents(sc) |-> sc.ag[a].mode], x |-> [a \in Agents(sc) |-> sc.ag[a].init],
             start |-> 0, height |-> 0]
=============================================================================
