----------------------------- MODULE CoverTrace -----------------------------
(* Reachability covers execution.  Every case holds one recorded verification    *)
(* tree and simulation trees of points of its initial set, recorded from the     *)
(* real library.  Walking a simulation tree from the root, the set `at` of nodes  *)
(* of the verification tree the execution can be in never runs empty, the states *)
(* lie in their tubes, and what the execution violates they report.               *)
EXTENDS VerseVer, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES_FILE)

VARIABLES cid, den, q, l, at, cnt
vars == <<cid, den, q, l, at, cnt>>

C == Cases[cid]
V == C.ver
S == C.sims[q]
N0 == S[l]
Ag == 1..Len(C.sc.ag)
RangeS(s) == { s[i] : i \in DOMAIN s }
Chk(ok, name) == IF ok THEN {} ELSE {name}

Segs(v) == Len(V[v].trace[1])
End(v) == V[v].start + Segs(v)
Idle(n) == \E a \in Ag : n.trace[a] = <<>>     \* not expanded: height or horizon reached
Unsafe(v) == C.sc.uc = 0 /\ \E a \in Ag : V[v].hits[a] # <<>>

(* All agents are in the same segment of node v at step k.                         *)
InSeg(v, s, k, x) ==
  /\ V[v].trace[1][s][1] <= k /\ k <= V[v].trace[1][s][3]
  /\ \A a \in Ag : /\ s <= Len(V[v].trace[a])
                   /\ \A j \in DOMAIN x[a] : V[v].trace[a][s][2][j] <= x[a][j] /\ x[a][j] <= V[v].trace[a][s][4][j]
InTube(v, k, x) == \E s \in 1..Segs(v) : InSeg(v, s, k, x)

Rows(n) == IF Idle(n) THEN {} ELSE 1..Len(n.trace[1])
Row(n, i) == [a \in Ag |-> n.trace[a][i][2]]
When(n, i) == n.trace[1][i][1]
EndOf(n) == IF Idle(n) THEN n.start ELSE When(n, Len(n.trace[1]))

(* v has been left before n ends: it stopped at a violation, or its guard window      *)
(* ended without a guard that holds on the whole set (the engine then drops the        *)
(* rest of the set; STRICT=1 does not accept that).                                    *)
Strict == "STRICT" \in DOMAIN IOEnv /\ IOEnv.STRICT = "1"
Segment(v, s) == [m |-> V[v].mode, b |-> [a \in Ag |-> [lo |-> V[v].trace[a][s][2], hi |-> V[v].trace[a][s][4]]]]
Closed(v) == Segs(v) > Entered(C.sc, [inits |-> V[v].init]) /\ \E s \in {Segs(v)} : LET wb == Segment(v, s) IN
               \E a \in Ag : LET rs == VResets(C.sc, den, wb, a) IN AllInside(C.sc, wb, a, rs, VPermitted(C.sc, wb, a, rs))
Left(v, n) == ~Idle(V[v]) /\ EndOf(n) > End(v) /\ (Unsafe(v) \/ (~Strict /\ ~Closed(v)))
Inside(v, n) ==
  /\ V[v].mode = n.mode
  /\ V[v].start <= n.start
  /\ Idle(V[v]) \/ \A i \in Rows(n) : (When(n, i) > End(v) /\ Left(v, n)) \/ InTube(v, When(n, i), Row(n, i))
Tells(v, n) ==
  \/ Idle(V[v]) \/ Left(v, n)
  \/ \A a \in Ag : RangeS(n.hits[a]) \subseteq RangeS(V[v].hits[a])

Kids(T, i) == { j \in 1..Len(T) : T[j].parent = i }
Movers(i, j) == { a \in Ag : S[i].mode[a] # S[j].mode[a] \/ S[j].init[a] # S[i].trace[a][Len(S[i].trace[a])][2] }

Init == /\ cid \in 1..Len(Cases)
        /\ den = Denot(Cases[cid].sc)
        /\ q \in 1..Len(Cases[cid].sims)
        /\ l = 1
        /\ at = [i \in 1..Len(Cases[cid].sims[q]) |-> IF i = 1 THEN {1} ELSE {}]
        /\ cnt = [walked |-> 0, left |-> 0, joint |-> 0, unsafe |-> 0, follow |-> 0]

(* The nodes an execution that jumps from l to j can be in afterwards.               *)
Next1(here, j) == UNION { { w \in Kids(V, v) : V[w].mode = S[j].mode /\ V[w].start <= S[j].start } : v \in here }

Walk ==
  /\ l <= Len(S)
  /\ LET cand == at[l]
         here == { v \in cand : Inside(v, N0) }
         tell == { v \in here : Tells(v, N0) }
         bad == IF cand = {} THEN {}
                ELSE Chk(N0.off = 0 /\ \A v \in cand : V[v].off = 0, "offgrid")
                     \cup Chk(here # {}, IF \E v \in cand : V[v].start <= N0.start THEN "uncovered state" ELSE "uncovered time")
                     \cup Chk(here = {} \/ tell # {}, "violation not reported")
                     \cup (IF here = {} \/ \E v \in here : Left(v, N0) \/ Unsafe(v) \/ Idle(V[v]) THEN {}
                           ELSE Chk(\A j \in Kids(S, l) : Cardinality(Movers(l, j)) # 1 \/ Next1(here, j) # {}, "branch not explored"))
         free == \E v \in here : Left(v, N0)
     IN /\ (IF bad = {} THEN TRUE
            ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> l, kind |-> "sim" \o ToString(q), bad |-> SetToSeq(bad)])))
        /\ at' = [j \in DOMAIN at |->
                    IF j \in Kids(S, l) /\ Cardinality(Movers(l, j)) = 1 /\ ~free THEN Next1(tell, j) ELSE at[j]]
        /\ cnt' = [walked |-> cnt.walked + (IF cand # {} THEN 1 ELSE 0),
                   left |-> cnt.left + (IF free THEN 1 ELSE 0),
                   unsafe |-> cnt.unsafe + (IF \E v \in here : Unsafe(v) THEN 1 ELSE 0),
                   joint |-> cnt.joint + Cardinality({ j \in Kids(S, l) : Cardinality(Movers(l, j)) > 1 }),
                   follow |-> cnt.follow + Cardinality({ j \in Kids(S, l) : Cardinality(Movers(l, j)) = 1 /\ ~free })]
  /\ l' = l + 1
  /\ UNCHANGED <<cid, den, q>>

Done == /\ l = Len(S) + 1
        /\ PrintT("STAT " \o ToJson(cnt @@ [cases |-> 1, nodes |-> Len(S)]))
        /\ l' = l + 1
        /\ UNCHANGED <<cid, den, q, at, cnt>>

Next == Walk \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
