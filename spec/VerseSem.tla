------------------------------ MODULE VerseSem ------------------------------
(* The hybrid-automaton semantics of a scenario on a fixed integer grid:       *)
(* flows, sensing, assertion violations, permitted transitions.               *)
EXTENDS VerseExpr

(* A scenario sc (JSON): sc.ag[a] = [nv, nd, vel, cpl, dl, prog, tr, am, init, mode],    *)
(* sc.N = horizon in steps, sc.H = height bound, sc.h = map table.            *)
Agents(sc) == 1..Len(sc.ag)

(* One sampling period of agent a in discrete state m: x' = x + vel(m) (+ or - x[j]); cpl[i] = j or -j *)
Step(ag, m, x) ==
  TLCEval([i \in 1..ag.nv |-> x[i] + ag.vel[m[1]][i] + (IF ag.cpl[i] = 0 THEN 0 ELSE IF ag.cpl[i] > 0 THEN x[ag.cpl[i]] ELSE -x[-ag.cpl[i]])])

RECURSIVE FlowFrom(_, _, _, _)
FlowFrom(ag, m, x, n) == IF n = 0 THEN <<x>> ELSE <<x>> \o FlowFrom(ag, m, Step(ag, m, x), n - 1)

(* Denotation of every agent's program, computed once per scenario. *)
Denot(sc) ==
  TLCEval([a \in Agents(sc) |->
     IF sc.ag[a].dl = 1
     THEN [cand |-> Candidates(sc.ag[a].prog, sc.ag[a].nd, sc.ag[a].nv),
           asr |-> Asserts(sc.ag[a].prog, {})]
     ELSE [cand |-> <<>>, asr |-> {}]])

(* What the scenario's sensor lets agent a see: possibly an offset of its own position, and *)
(* only those other agents whose first variable is within reach.                            *)
Abs(n) == IF n < 0 THEN -n ELSE n
Seen(sc, a, near(_)) == IF sc.reach < 0 THEN Agents(sc) ELSE { o \in Agents(sc) : o = a \/ near(o) }
(* Lane coordinates: lane t starts at (x, y) and runs into the direction (dx, dy).  They are *)
(* those of the position the agent is seen at: its first two variables.                     *)
LaneCoord(l, c, x, y) ==
  IF c = 0 THEN (x - l.x) * l.dx + (y - l.y) * l.dy ELSE (y - l.y) * l.dx - (x - l.x) * l.dy
WithLanes(sc, w) ==
  IF sc.lanes = <<>> THEN w
  ELSE [m |-> w.m, nv |-> sc.ag[1].nv,
        x |-> TLCEval([g \in DOMAIN w.x |->
               w.x[g] \o [i \in 1..(2 * Len(sc.lanes)) |-> LaneCoord(sc.lanes[(i + 1) \div 2], (i + 1) % 2, w.x[g][1], w.x[g][2])]])]

Sensed(sc, w, a) ==
  WithLanes(sc,
  IF sc.off = 0 /\ sc.reach < 0 THEN w
  ELSE LET S == Seen(sc, a, LAMBDA o : Abs(w.x[a][1] - w.x[o][1]) <= sc.reach)
       IN TLCEval([m |-> [o \in S |-> w.m[o]],
                   x |-> [o \in S |-> IF o = a THEN [w.x[a] EXCEPT ![1] = @ + sc.off] ELSE w.x[o]]]))

Violated(sc, den, wt, a) ==
  LET w == Sensed(sc, wt, a) IN
  { x.l : x \in { y \in den[a].asr : Holds(y.pre, sc.h, w, a) /\ ~BE(y.c, sc.h, w, a, 0) } }

(* Values each variable may be reset to now (empty = not reset). *)
Enabled(sc, den, wt, a) ==
  LET C == den[a].cand
      w == Sensed(sc, wt, a) IN
  TLCEval([k \in DOMAIN C |-> { KVal(k, x.v, sc.h, w, a) : x \in { y \in C[k] : Holds(y.c, sc.h, w, a) } }])

SetVar(r, k, v) == IF k[1] = "d" THEN [r EXCEPT !.m[k[2]] = v] ELSE [r EXCEPT !.x[k[2]] = v]

(* All joint resets: one choice per reset variable. *)
JointResets(sc, den, w, a) ==
  IF sc.ag[a].dl # 1 THEN {}
  ELSE LET E == Enabled(sc, den, w, a)
           act == { k \in DOMAIN E : E[k] # {} }
       IN IF act = {} THEN {}
          ELSE FoldSet(LAMBDA k, acc : { SetVar(r, k, v) : <<r, v>> \in acc \X E[k] },
                       { [m |-> w.m[a], x |-> w.x[a]] }, act)

(* The track map decides which lane/mode changes exist. *)
MapOk(sc, a, m, m2) ==
  LET ag == sc.ag[a] IN
  IF ag.tr = 0 \/ ag.am = 0 THEN TRUE
  ELSE IF m[ag.am] = m2[ag.am] /\ m[ag.tr] = m2[ag.tr] THEN TRUE
  ELSE /\ m2[ag.tr] # 0
       /\ HVal(sc.h, m[ag.tr], m[ag.am], m2[ag.am]) = m2[ag.tr]

Moves(sc, den, w, a) == { r \in JointResets(sc, den, w, a) : MapOk(sc, a, w.m[a], r.m) }

(* world at step k of a node: fl[a] = flow of agent a *)
WorldAt(sc, m, fl, k) == [m |-> m, x |-> TLCEval([a \in Agents(sc) |-> fl[a][k + 1]])]

(* All ways the moving agents may jump together; the others keep their state. *)
Joint(sc, w, mv) ==
  LET act == { a \in Agents(sc) : mv[a] # {} }
  IN FoldSet(LAMBDA a, acc : { [m |-> [s.m EXCEPT ![a] = r.m], x |-> [s.x EXCEPT ![a] = r.x]] : <<s, r>> \in acc \X mv[a] },
             {[m |-> w.m, x |-> w.x]}, act)
=============================================================================
