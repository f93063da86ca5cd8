------------------------------ MODULE InitApi ------------------------------
(* The scenario object as a state machine over its public calls: which initial  *)
(* sets, modes and parameters a run starts from, whatever was called before.    *)
(* Every case is a history of calls with what the library answered; numbers are *)
(* scaled by 10^6.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLES cid, l, st
vars == <<cid, l, st>>
C == Cases[cid]
Op == C.ops[l]

(* st.order = agents in the order of their addition; st.ini[a] = <<lo, hi>> or <<>> (unset);  *)
(* st.mode[a]; st.stat[a], st.unc[a]; st.draw = what was sampled: [seed, sets, pts].            *)
Start == [order |-> <<>>, ini |-> <<>>, mode |-> <<>>, stat |-> <<>>, unc |-> <<>>, draw |-> {}]

Both(i) == IF Len(i) = 1 THEN <<i[1], i[1]>> ELSE i
Put(f, a, v) == (a :> v) @@ f

Added(s, o) ==
  [s EXCEPT !.order = Append(@, o.a),
            !.ini = Put(@, o.a, IF o.init = <<>> THEN <<>> ELSE Both(o.init)),
            !.mode = Put(@, o.a, o.mode),
            !.stat = Put(@, o.a, <<>>), !.unc = Put(@, o.a, <<>>)]

Single(s, a, i, m, sp, up) ==
  [s EXCEPT !.ini = Put(@, a, Both(i)), !.mode = Put(@, a, m), !.stat = Put(@, a, sp), !.unc = Put(@, a, up)]

RECURSIVE SetAll(_, _, _)
SetAll(s, o, k) ==
  IF k > Len(s.order) THEN s
  ELSE SetAll(Single(s, s.order[k], o.init[k], o.mode[k], o.stat[k], o.unc[k]), o, k + 1)

Ready(s) == \A k \in DOMAIN s.order : s.ini[s.order[k]] # <<>>

(* Every sampled coordinate lies within the set, exactly on it where the set is a point. *)
InBox(p, b) == /\ Len(p) = Len(b[1])
               /\ \A j \in DOMAIN p : b[1][j] <= p[j] /\ p[j] <= b[2][j]

Sets(s) == [k \in DOMAIN s.order |-> s.ini[s.order[k]]]
Chk(ok, name) == IF ok THEN {} ELSE {name}

Discrete(s, root) ==
  Chk(DOMAIN root.mode = DOMAIN s.mode /\ \A a \in DOMAIN s.mode : root.mode[a] = s.mode[a], "mode")
  \cup Chk({ root.ag[k] : k \in DOMAIN root.ag } = DOMAIN s.mode, "agents")
  \cup Chk(\A a \in DOMAIN s.stat : root.stat[a] = s.stat[a], "static")
  \cup Chk(\A a \in DOMAIN s.unc : root.unc[a] = s.unc[a], "uncertain")

(* A root drawn with a seed: (same seed, same sets) has the same points.                 *)
Drawn(s, seed, root) ==
  Chk(DOMAIN root.pt = DOMAIN s.ini, "agents")
  \cup Chk(\A a \in DOMAIN s.ini : a \in DOMAIN root.pt => InBox(root.pt[a], s.ini[a]), "inside")
  \cup Chk(\A a \in DOMAIN s.ini : a \in DOMAIN root.pt => root.pt[a] = root.tr[a], "trace starts at init")
  \cup (IF seed < 0 THEN {} ELSE Chk(\A d \in s.draw : d.seed = seed /\ d.sets = Sets(s) => d.pts = root.pt, "seed"))
  \cup Discrete(s, root)

WithDraw(s, seed, root) == IF seed < 0 THEN s ELSE [s EXCEPT !.draw = @ \cup {[seed |-> seed, sets |-> Sets(s), pts |-> root.pt]}]

RECURSIVE Draws(_, _, _, _)
Draws(s, seed, roots, k) ==
  IF k > Len(roots) THEN s ELSE Draws(WithDraw(s, IF seed < 0 THEN -1 ELSE seed + k - 1, roots[k]), seed, roots, k + 1)

BadOf(s, o) ==
  CASE o.op \in {"sim", "direct"} ->
         IF ~Ready(s) THEN Chk(o.err = "AssertionError", "missing init accepted")
         ELSE IF o.err # "" THEN {"error"} ELSE Drawn(s, o.seed, o.roots[1])
    [] o.op = "ver" ->
         IF ~Ready(s) THEN Chk(o.err = "AssertionError", "missing init accepted")
         ELSE IF o.err # "" THEN {"error"}
         ELSE Chk(DOMAIN o.root.box = DOMAIN s.ini /\ \A a \in DOMAIN s.ini : o.root.box[a] = <<s.ini[a]>>, "box") \cup Discrete(s, o.root)
    [] o.op = "multi" ->
         IF ~Ready(s) THEN Chk(o.err = "AssertionError", "missing init accepted")
         ELSE IF o.err # "" THEN {"error"}
         ELSE Chk(Len(o.roots) = o.n, "number of runs")
              \cup UNION { Drawn(s, IF o.seed < 0 THEN -1 ELSE o.seed + k - 1, o.roots[k]) : k \in DOMAIN o.roots }
    [] o.op = "multi_points" ->
         IF ~Ready(s) THEN Chk(o.err = "AssertionError", "missing init accepted")
         ELSE IF o.err # "" THEN {"error"}
         ELSE Chk(Len(o.roots) = Len(o.pts), "number of runs")
              \cup UNION { Chk(o.roots[k].pt = o.pts[k] /\ o.roots[k].tr = o.pts[k], "given points") \cup Discrete(s, o.roots[k]) : k \in DOMAIN o.roots }
    [] o.op \in {"bad_all", "bad_dim", "bad_mode", "bad_agent"} -> Chk(o.err = "AssertionError", o.op \o " accepted")
    [] OTHER -> Chk(o.err = "", "error")

After(s, o) ==
  CASE o.op = "add" -> Added(s, o)
    [] o.op = "all" -> SetAll(s, o, 1)
    [] o.op = "single" -> Single(s, o.a, o.init, o.mode, o.stat, o.unc)
    \* initial values given to an agent that is already part of the scenario count if it has none
    [] o.op = "agent" -> IF s.ini[o.a] = <<>> THEN Single(s, o.a, o.init, o.mode, <<>>, <<>>) ELSE s
    [] o.op \in {"sim", "direct"} -> IF o.err = "" /\ Ready(s) THEN WithDraw(s, o.seed, o.roots[1]) ELSE s
    [] o.op = "multi" -> IF o.err = "" /\ Ready(s) THEN Draws(s, o.seed, o.roots, 1) ELSE s
    [] OTHER -> s    \* the caller changing its own lists, other settings, verification: nothing

Init == cid \in 1..Len(Cases) /\ l = 1 /\ st = Start
Call ==
  /\ l <= Len(C.ops)
  /\ LET b == BadOf(st, Op) IN
       IF b = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> l, kind |-> Op.op, bad |-> SetToSeq(b)]))
  /\ st' = After(st, Op)
  /\ l' = l + 1
  /\ UNCHANGED cid
Done == /\ l = Len(C.ops) + 1
        /\ PrintT("STAT " \o ToJson([cases |-> 1, calls |-> Len(C.ops)]))
        /\ l' = l + 1
        /\ UNCHANGED <<cid, st>>
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
