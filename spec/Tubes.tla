-------------------------------- MODULE Tubes --------------------------------
(* What the tube of a node owes, whatever the flow: it starts around the node's       *)
(* initial sets, runs on in whole sampling periods, contains every simulation it was  *)
(* learnt from, and is carried over unchanged by agents that do not jump.  For        *)
(* nonlinear flows DryVR promises no more (its discrepancy is learnt from samples).   *)
(* Numbers are in units of 1/C.unit, recorded bounds rounded outwards.                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLES cid, l, cnt
vars == <<cid, l, cnt>>

C == Cases[cid]
Nd == C.nodes[l]
Agents == 1..C.agents
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Chk(ok, name) == IF ok THEN {} ELSE {name}

(* boxes are <<lo, hi>>, tube rows <<t1, lo, t2, hi>> *)
Hull(b, c) == << [i \in DOMAIN b[1] |-> Mn(b[1][i], c[1][i])], [i \in DOMAIN b[2] |-> Mx(b[2][i], c[2][i])] >>
RECURSIVE HullSeq(_)
HullSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Hull(s[1], HullSeq(Tail(s)))
Row(a, k) == << Nd.tube[a][k][2], Nd.tube[a][k][4] >>
(* slack: rounding of both sides *)
Inside(p, b) == \A i \in DOMAIN p : b[1][i] - 2 <= p[i] /\ p[i] <= b[2][i] + 2
InsideBox(c, b) == Inside(c[1], b) /\ Inside(c[2], b)
Near(x, y) == \A i \in DOMAIN x : x[i] - y[i] \in -2..2

(* groups of C.seg initial sets; group j enters the tube with segment off + 1 *)
Groups(a) ==
  LET s == Nd.init[a]
      n == (Len(s) + C.seg - 1) \div C.seg
  IN { [n |-> j, off |-> (j - 1) * C.seg, box |-> HullSeq(SubSeq(s, (j - 1) * C.seg + 1, Mn(j * C.seg, Len(s))))] : j \in 1..n }
Live(a) == { g \in Groups(a) : g.off < Len(Nd.tube[a]) }

(* batches of simulations run to learn the tube of one set: [a, m, rem, at, traces]; the centre *)
(* comes first, and at names it (as Nd.at[a][j] does for group j); several sets can share it    *)
BatchesOf(a, g) == { i \in DOMAIN C.batches : LET b == C.batches[i] IN
                       b.a = a /\ b.m = Nd.mode[a] /\ b.rem = C.N - Nd.start /\ b.at = Nd.at[a][g.n]
                       /\ Near(b.traces[1][1], [k \in DOMAIN g.box[1] |-> (g.box[1][k] + g.box[2][k]) \div 2]) }
Learnt(a, g, b) ==
  \A t \in DOMAIN b.traces : \A k \in 1..(Len(Nd.tube[a]) - g.off) :
     LET r == Row(a, g.off + k)
         tr == b.traces[t]
     IN k + 1 - C.pts \in DOMAIN tr => Inside(tr[k], r) /\ Inside(tr[k + 1 - C.pts], r)
Starts(b) == { b.traces[t][1] : t \in DOMAIN b.traces }
Spread(g) == \E i \in DOMAIN g.box[1] : g.box[2][i] - g.box[1][i] > 10

Computed(a) == Nd.parent = 0 \/ Nd.mode[a] # C.nodes[Nd.parent].mode[a]
Parent == C.nodes[Nd.parent]
Carried(a) ==
  LET d == Nd.start - Parent.start IN
  /\ d >= 0
  /\ \A k \in DOMAIN Nd.tube[a] : k + d \in DOMAIN Parent.tube[a] =>
        Near(Row(a, k)[1], Parent.tube[a][k + d][2]) /\ Near(Row(a, k)[2], Parent.tube[a][k + d][4])
  /\ Len(Nd.init[a]) = 1 /\ (d + 1 \in DOMAIN Parent.tube[a] =>
        Near(Nd.init[a][1][1], Parent.tube[a][d + 1][2]) /\ Near(Nd.init[a][1][2], Parent.tube[a][d + 1][4]))

Bad ==
  LET act == { a \in Agents : Nd.tube[a] # <<>> } IN
       Chk(act = Agents \/ Nd.height >= C.H - 1 \/ Nd.start >= C.N, "agents")
  \cup Chk(\A a \in act : \A k \in DOMAIN Nd.tube[a] :
              /\ Nd.tube[a][k][1] = Nd.start + k - 1 /\ Nd.tube[a][k][3] = Nd.start + k - C.pts
              /\ \A i \in DOMAIN Nd.tube[a][k][2] : Nd.tube[a][k][2][i] <= Nd.tube[a][k][4][i], "rows")
  \cup Chk(\A a \in act : Nd.start + Len(Nd.tube[a]) <= C.N + C.pts, "horizon")
  \cup Chk(\A a \in act : \A g \in Live(a) : InsideBox(g.box, Row(a, g.off + 1)), "initial")
  \cup Chk(\A a \in act : Computed(a) => \A g \in Live(a) : BatchesOf(a, g) # {}, "unlearnt")
  \cup Chk(\A a \in act : Computed(a) => \A g \in Live(a) :
              BatchesOf(a, g) # {} => \E i \in BatchesOf(a, g) : Learnt(a, g, C.batches[i]), "learnt")
  \cup Chk(\A a \in act : Computed(a) => \A g \in Live(a) :
              (Spread(g) /\ BatchesOf(a, g) # {}) => \E i \in BatchesOf(a, g) : Cardinality(Starts(C.batches[i])) > 1, "blind")
  \cup Chk(\A i \in DOMAIN C.batches : \A t \in DOMAIN C.batches[i].traces : Len(C.batches[i].traces[t]) = C.batches[i].rem + 1, "length")
  \cup Chk(Nd.parent = 0 \/ act = {} \/ \A a \in Agents : Computed(a) \/ Carried(a), "carried")

Init == cid \in DOMAIN Cases /\ l = 1 /\ cnt = [own |-> 0, carried |-> 0, groups |-> 0]
Node ==
  /\ l <= Len(C.nodes)
  /\ LET b == Bad
         own == { a \in Agents : Nd.tube[a] # <<>> /\ Computed(a) }
     IN /\ IF b = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> l, bad |-> SetToSeq(b)]))
        /\ cnt' = [own |-> cnt.own + Cardinality(own), carried |-> cnt.carried + Cardinality({ a \in Agents : Nd.tube[a] # <<>> /\ ~Computed(a) }),
                   groups |-> cnt.groups + FoldSet(LAMBDA a, n : n + Cardinality(Live(a)), 0, own)]
  /\ l' = l + 1
  /\ UNCHANGED cid
Done ==
  /\ l = Len(C.nodes) + 1
  /\ PrintT("STAT " \o ToJson(cnt @@ [cases |-> 1, nodes |-> Len(C.nodes)]))
  /\ l' = l + 1
  /\ UNCHANGED <<cid, cnt>>
Next == Node \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
