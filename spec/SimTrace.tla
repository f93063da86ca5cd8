------------------------------ MODULE SimTrace ------------------------------
(* Validation of recorded simulation trees.  CASES_FILE holds a JSON array of  *)
(* cases [id, sc, nodes]; nodes are the tree of the real library in BFS order. *)
(* Every case is an independent behaviour; every step consumes one recorded    *)
(* node with the engine action that applies to it and names failing clauses.   *)
EXTENDS VerseSim, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES_FILE)

VARIABLES cid, den, l, cnt
vars == <<cid, den, l, cnt>>

C == Cases[cid]
N0 == C.nodes[l]

Kinds == {"limit", "horizon", "unsafe", "switch", "flow"}

Init == /\ cid \in 1..Len(Cases)
        /\ den = Denot(Cases[cid].sc)
        /\ l = 1
        /\ cnt = [k \in Kinds |-> 0]

NodeOf(n) == [m |-> n.mode, x |-> n.init, start |-> n.start, height |-> n.height]

KidIdx(i) == { j \in 1..Len(C.nodes) : C.nodes[j].parent = i }
RangeS(s) == { s[i] : i \in 1..Len(s) }

(* trace rows of agent a in node n: <<step, state>> *)
RowsOk(n, v, a) ==
  /\ Len(n.trace[a]) = v.rows
  /\ \A i \in 1..v.rows : n.trace[a][i][2] = v.fl[a][i]
TimesOk(n, v, a) == \A i \in 1..Len(n.trace[a]) : n.trace[a][i][1] = n.start + i - 1

HitsOf(n) == [a \in 1..Len(n.hits) |-> RangeS(n.hits[a])]

Chk(ok, name) == IF ok THEN {} ELSE {name}

BadOf(v) ==
  LET n == N0
      sc == C.sc
      kids == { NodeOf(C.nodes[j]) : j \in KidIdx(l) }
      active == v.kind \notin {"limit", "horizon"}
  IN  Chk(n.off = 0, "offgrid")
      \cup Chk(n.type = "simtrace", "nodetype")
      \cup Chk(n.height < sc.H \/ l = 1, "height")
      \cup Chk(HitsOf(n) = v.hits, "asserts")
      \cup (IF active THEN Chk(\A a \in Agents(sc) : TimesOk(n, v, a), "times") ELSE {})
      \cup (IF active THEN Chk(\A a \in Agents(sc) : Len(n.trace[a]) = v.rows, "cut." \o v.kind) ELSE {})
      \cup (IF active THEN Chk(\A a \in Agents(sc) : \A i \in 1..(IF Len(n.trace[a]) < v.rows THEN Len(n.trace[a]) ELSE v.rows) :
                                   n.trace[a][i][2] = v.fl[a][i], "rows") ELSE {})
      \cup Chk(v.kids \subseteq kids, "kids.missing")
      \cup Chk(kids \subseteq v.kids, "kids.extra." \o v.kind)
      \cup Chk(Cardinality(KidIdx(l)) = Cardinality(kids), "kids.dup")
      \cup (IF l = 1 THEN Chk(NodeOf(n) = Root(sc), "root") ELSE Chk(n.parent >= 1 /\ n.parent < l, "parent"))
      \cup Chk(Cardinality({ C.nodes[j].id : j \in {l} \cup { q \in 1..Len(C.nodes) : q < l } }) = l, "ids")

Report(b, v) ==
  IF b = {} THEN TRUE
  ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> l, kind |-> v.kind, bad |-> SetToSeq(b)]))

(* One node is consumed; its kind tells what the specification makes of it. *)
Consume ==
  /\ l <= Len(C.nodes)
  /\ LET v == IF C.sc.direct = 1 THEN DirectView(C.sc, NodeOf(N0)) ELSE View(C.sc, den, NodeOf(N0))
     IN /\ Report(BadOf(v), v)
        /\ cnt' = [cnt EXCEPT ![v.kind] = @ + 1]
  /\ l' = l + 1
  /\ UNCHANGED <<cid, den>>

Done == /\ l = Len(C.nodes) + 1
        /\ PrintT("STAT " \o ToJson(cnt @@ [cases |-> 1, nodes |-> Len(C.nodes)]))
        /\ l' = l + 1
        /\ UNCHANGED <<cid, den, cnt>>

Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
