------------------------------ MODULE TreeOps ------------------------------
(* What the operations of an analysis tree answer: containment and equality of *)
(* two trees, the tree queries, and saving and loading.  Every case is one or   *)
(* two trees (records of the real objects, in the order of a breadth-first      *)
(* walk) with the answers the real library gave; the specification computes the *)
(* answers from the trees alone.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLES cid, pc
vars == <<cid, pc>>
C == Cases[cid]

Kids(t, i) == { j \in 1..Len(t.nodes) : t.nodes[j].parent = i }
NodeIds(t) == 1..Len(t.nodes)
RangeS(s) == { s[i] : i \in DOMAIN s }
Abs(n) == IF n < 0 THEN -n ELSE n

(* ------------------------- containment of simulations ----------------------- *)
(* Traces are closer than the tolerance (C.tol2 = twice the tolerance) and the   *)
(* children of matching nodes can be matched one to one.                         *)
CloseTr(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A i \in DOMAIN x : /\ Len(x[i][2]) = Len(y[i][2])
                         /\ \A j \in DOMAIN x[i][2] : 2 * Abs(x[i][2][j] - y[i][2][j]) < C.tol2s
CloseNode(n, m, ags) ==
  \A a \in ags : /\ (a \in DOMAIN n.trace) = (a \in DOMAIN m.trace)
                 /\ a \in DOMAIN n.trace => CloseTr(n.trace[a], m.trace[a])

RECURSIVE Iso(_, _, _, _, _)
Iso(t, u, i, j, ags) ==
  LET K == Kids(t, i)
      L == Kids(u, j)
  IN /\ CloseNode(t.nodes[i], u.nodes[j], ags)
     /\ Cardinality(K) = Cardinality(L)
     /\ \/ K = {}
        \/ LET ok == TLCEval([p \in K \X L |-> Iso(t, u, p[1], p[2], ags)])
               RECURSIVE Match(_, _)
               Match(ks, ls) == ks = {} \/ LET k == CHOOSE k \in ks : TRUE IN \E x \in ls : ok[<<k, x>>] /\ Match(ks \ {k}, ls \ {x})
           IN Match(K, L)

(* ------------------------- containment of reach sets ------------------------- *)
(* Per agent, step and dimension: the union of the intervals of all nodes of u is *)
(* inside the union of those of t, each widened by the tolerance.                 *)
Ints(t, a, k, d) ==
  UNION { { <<s[2][d], s[4][d]>> : s \in { y \in RangeS(t.nodes[i].trace[a]) : y[1] = k } }
          : i \in { i \in NodeIds(t) : a \in DOMAIN t.nodes[i].trace } }
Steps(t, a) == UNION { { s[1] : s \in RangeS(t.nodes[i].trace[a]) } : i \in { i \in NodeIds(t) : a \in DOMAIN t.nodes[i].trace } }
(* All ends lie on multiples of 2 on the scale of 4: it is enough to look at those and *)
(* the points between them.                                                            *)
Covers(A, B) ==
  \A b \in B : \A p \in (4 * b[1])..(4 * b[2]) : \E a \in A : 4 * a[1] - 2 * C.tol2 <= p /\ p <= 4 * a[2] + 2 * C.tol2
ReachIn(t, u, ags) ==
  \A a \in ags : \A k \in Steps(u, a) :
     /\ k \in Steps(t, a)
     /\ \A d \in 1..t.nv : Covers(Ints(t, a, k, d), Ints(u, a, k, d))

TreeIn(t, u, strict) ==
  LET A == RangeS(t.agents)
      B == RangeS(u.agents)
  IN /\ IF strict THEN A = B ELSE B \subseteq A
     /\ IF t.type = "simtrace" THEN Len(t.nodes) = Len(u.nodes) /\ Iso(t, u, 1, 1, B) ELSE ReachIn(t, u, B)

(* ------------------------------- queries ---------------------------------- *)
Leaves(t) == { i \in NodeIds(t) : Kids(t, i) = {} }
RECURSIVE Below(_, _)
Below(t, i) == {i} \cup UNION { Below(t, j) : j \in Kids(t, i) }
RECURSIVE Tall(_, _)
Tall(t, i) == IF Kids(t, i) = {} THEN 1 ELSE 1 + Max({ Tall(t, j) : j \in Kids(t, i) })
Jumps(t, a) == { t.nodes[j].start : j \in { j \in NodeIds(t) : t.nodes[j].parent # 0 /\ t.nodes[j].mode[a] # t.nodes[t.nodes[j].parent].mode[a] } }

(* Answers of the library, indices are positions in the breadth-first order          *)
Chk(ok, name) == IF ok THEN {} ELSE {name}
BadQ(t, q) ==
  Chk(q.leaves = Cardinality(Leaves(t)), "leaves")
  \cup Chk(Len(q.nodes) = Len(t.nodes) /\ RangeS(q.nodes) = NodeIds(t), "nodes")
  \cup Chk(\A i \in NodeIds(t) : Len(q.leafs[i]) = Cardinality(RangeS(q.leafs[i])) /\ RangeS(q.leafs[i]) = Below(t, i) \cap Leaves(t), "get_leaf_nodes")
  \cup Chk(\A i \in NodeIds(t) : q.height[i] = Tall(t, i), "height")
  \cup Chk(DOMAIN q.first = { a \in RangeS(t.agents) : Jumps(t, a) # {} }, "first_transitions.agents")
  \cup Chk(\A a \in DOMAIN q.first : Jumps(t, a) = {} \/ q.first[a] = Min(Jumps(t, a)), "first_transitions.time")

(* A tree read back is the tree that was written; siblings keep their order.          *)
BadL(t, r) ==
  Chk(Len(r.nodes) = Len(t.nodes), "load.nodes")
  \cup Chk(r.agents = t.agents, "load.agents")
  \cup (IF Len(r.nodes) # Len(t.nodes) THEN {} ELSE
       UNION { Chk(\A i \in NodeIds(t) : r.nodes[i][f] = t.nodes[i][f], "load." \o f)
               : f \in {"id", "parent", "height", "start", "type", "mode", "init", "trace", "hits", "static", "up", "nd"} })

(* ------------------------------ fixed points ------------------------------- *)
(* Joint states (boxes of all agents with their modes) of the segments of a tree      *)
(* for which Want(k) holds, k the step at which the segment starts.                   *)
Explored(t) == { i \in NodeIds(t) : \A a \in RangeS(t.agents) : a \in DOMAIN t.nodes[i].trace /\ t.nodes[i].trace[a] # <<>> }
Joint(t, Want(_)) ==
  UNION { LET n == t.nodes[i]
              tr == n.trace[C.order[1]]
          IN { [m |-> n.mode,
                lo |-> FlattenSeq([p \in DOMAIN C.order |-> n.trace[C.order[p]][s][2]]),
                hi |-> FlattenSeq([p \in DOMAIN C.order |-> n.trace[C.order[p]][s][4]])] : s \in { s \in DOMAIN tr : Want(tr[s][1]) } }
          : i \in Explored(t) }
(* Corners are integers: integer points and the middles between them decide.          *)
Halves(lo, hi) == (2 * lo)..(2 * hi)
RECURSIVE Grid(_, _)
Grid(b, d) == IF d = 0 THEN {<<>>} ELSE { Append(p, x) : p \in Grid(b, d - 1), x \in Halves(b.lo[d], b.hi[d]) }
In(p, b) == \A d \in DOMAIN p : 2 * b.lo[d] <= p[d] /\ p[d] <= 2 * b.hi[d]
Fixed(t, T) ==
  LET now == Joint(t, LAMBDA k : k = T - 1)
      before == Joint(t, LAMBDA k : k < T - 1)
  IN \A b \in now : LET same == { c \in before : c.m = b.m } IN
       \/ \E c \in same : \A d \in DOMAIN b.lo : c.lo[d] <= b.lo[d] /\ b.hi[d] <= c.hi[d]
       \/ \A p \in Grid(b, Len(b.lo)) : \E c \in same : In(p, c)
BadF ==
  Chk(C.fix = (IF Fixed(C.t, C.T) THEN 1 ELSE 0), IF C.fix = 1 THEN "fixed.wrongly" ELSE "fixed.missed")
  \cup Chk({ [lo |-> b[1], hi |-> b[2]] : b \in RangeS(C.boxes) }
           = { [lo |-> x.lo, hi |-> x.hi] : x \in Joint(C.t, LAMBDA k : C.win[1] <= k /\ k + 1 <= C.win[2]) }, "reach_at")

BadC ==
  LET A == C.ans IN
  Chk(A.tu = TreeIn(C.t, C.u, C.strict = 1), "contains")
  \cup Chk(A.ut = TreeIn(C.u, C.t, C.strict = 1), "contains.rev")
  \cup Chk(A.tt = TreeIn(C.t, C.t, TRUE), "contains.self")
  \cup (IF "eq" \in DOMAIN A THEN Chk(A.eq = (TreeIn(C.t, C.u, TRUE) /\ TreeIn(C.u, C.t, TRUE)), "is_equal") ELSE {})

Bad == (IF "u" \in DOMAIN C THEN BadC ELSE {})
       \cup (IF "fix" \in DOMAIN C THEN BadF ELSE {})
       \cup (IF "q" \in DOMAIN C THEN BadQ(C.t, C.q) ELSE {})
       \cup (IF "r" \in DOMAIN C THEN BadL(C.t, C.r) \cup Chk(C.same = 1, "load.redump") \cup Chk(C.rc = 1, "load.equal") ELSE {})

Init == cid \in 1..Len(Cases) /\ pc = "ask"
Answer ==
  /\ pc = "ask"
  /\ LET b == Bad IN
       IF b = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> 0, kind |-> C.what, bad |-> SetToSeq(b)]))
  /\ PrintT("STAT " \o ToJson([cases |-> 1, nodes |-> Len(C.t.nodes)] @@ (C.what :> 1)
                              @@ (IF "u" \in DOMAIN C THEN (IF C.ans.tu THEN [contained |-> 1] ELSE [not_contained |-> 1]) ELSE <<>>)
                              @@ (IF "fix" \in DOMAIN C THEN (IF C.fix = 1 THEN [fixed |-> 1] ELSE [not_fixed |-> 1]) ELSE <<>>)))
  /\ pc' = "done"
  /\ UNCHANGED cid
Next == Answer
Spec == Init /\ [][Next]_vars
=============================================================================
