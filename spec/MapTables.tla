----------------------------- MODULE MapTables -----------------------------
(* The lane changes a road map offers, against its own geometry: changing to a  *)
(* side is offered from the normal mode exactly where there is a lane on that   *)
(* side, it leads through a virtual lane that belongs to the lane being left,   *)
(* and ends on that neighbour; h_exist says what h would answer.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLES cid, l
vars == <<cid, l>>
C == Cases[cid]
O == C.q[l]

(* C.lanes = physical lanes; C.off[a][b] = how far b's centre lies to the left of    *)
(* (or above) a's, in lane distances, or 99 where it is not next to it.              *)
(* C.sw[mode] = by how many lanes the mode moves (0: it keeps the lane).             *)
Lanes == { C.lanes[k] : k \in DOMAIN C.lanes }
Nb(a, n) == { b \in Lanes : C.off[a][b] = n }
None == "None"
Ask(a, s, d) == { C.q[k].r : k \in { j \in DOMAIN C.q : C.q[j].a = a /\ C.q[j].s = s /\ C.q[j].d = d } }
Chk(ok, name) == IF ok THEN {} ELSE {name}

Bad ==
  LET from == C.sw[O.s]
      to == C.sw[O.d]
      own == C.phys[O.a]
  IN Chk(O.ex = (O.r # None), "h_exist")
     \cup Chk(O.r2 = O.r /\ O.ex2 = O.ex, "enum arguments")
     \cup (CASE O.a \in Lanes /\ to # 0 ->
                  LET nb == Nb(O.a, to) IN
                  IF nb = {} THEN Chk(O.r = None, "change without a lane")
                  ELSE IF O.s # C.normal /\ O.r = None THEN {}
                  ELSE Chk(O.r # None, "change not offered")
                       \cup (IF O.r = None THEN {} ELSE
                             Chk(O.r \notin Lanes /\ C.phys[O.r] = O.a, "virtual lane")
                             \cup Chk(\E t \in Ask(O.r, O.d, C.normal) : t \in nb, "end of the change")
                             \* and back again from there
                             \cup Chk(\E t \in Ask(O.r, O.d, C.normal) : t \in Lanes /\ \E m \in DOMAIN C.sw : C.sw[m] = -to /\ \A v \in Ask(t, C.normal, m) : v # None, "way back"))
             [] O.a \in Lanes -> Chk(O.r \in {None, O.a}, "lane changed without switching")
             \* on the way: the change ends, or goes on
             [] O.a \notin Lanes /\ to # 0 -> Chk(O.r \in {None, O.a}, "change during a change")
             [] OTHER -> Chk(O.r = None \/ (O.r \in Lanes /\ C.off[own][O.r] = from), "end of a change"))

Pairs == C.pairs      \* neighbour relations kept by the map itself: [a, rel, b]; rel moves by C.rel[rel]
PairBad == UNION { LET p == Pairs[k] IN
                   Chk(C.off[p.a][p.b] = p.by, "neighbour " \o p.rel)
                   \cup Chk(\E j \in DOMAIN Pairs : Pairs[j].a = p.b /\ Pairs[j].b = p.a /\ Pairs[j].by = -p.by, "neighbour back")
                   \cup Chk(p.has, "has " \o p.rel) : k \in DOMAIN Pairs }

(* The pieces of a lane follow each other: no gap, no turn on the spot (C.joins, in   *)
(* hundredths), and the lanes of an intersection lead from where to where they say.  *)
RoadBad == Chk(\A k \in DOMAIN C.joins : C.joins[k].gap <= 1 /\ C.joins[k].turn <= 1, "joint")
           \cup Chk(\A k \in DOMAIN C.ends : C.ends[k].name = C.ends[k].is, "from-to")

Init == cid \in 1..Len(Cases) /\ l = 0
Look ==
  /\ l <= Len(C.q)
  /\ LET b == IF l = 0 THEN PairBad \cup RoadBad ELSE Bad IN
       IF b = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> l, kind |-> C.name, bad |-> SetToSeq(b)]))
  /\ l' = l + 1
  /\ UNCHANGED cid
Done == /\ l = Len(C.q) + 1
        /\ PrintT("STAT " \o ToJson([cases |-> 1, queries |-> Len(C.q)]))
        /\ l' = l + 1
        /\ UNCHANGED cid
Next == Look \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
