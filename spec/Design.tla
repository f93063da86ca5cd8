------------------------------- MODULE Design -------------------------------
(* The two engines side by side, on the specifications alone: an execution of    *)
(* the simulation engine from any point of the initial set is followed through   *)
(* the tree of the verification engine.  TLC explores all executions of all      *)
(* members of a family and checks the properties below in every state.           *)
EXTENDS Family

VARIABLES id,     \* member of the family
          sc, den,
          nd,     \* current node of the execution
          sv,     \* what the simulation engine makes of it
          at,     \* nodes of the verification tree it can be in: [nd, tb, w], w = what the engine makes of it
          free    \* "no", or why the execution need not be followed any more
vars == <<id, sc, den, nd, sv, at, free>>

Points(b) == { p \in b.lo[1]..b.hi[1] : p = b.lo[1] \/ (p % 8 \in {1, 3, 5}) }

VNode(s, d, v, tb) == [nd |-> v, tb |-> tb, w |-> VView(s, d, v, tb)]

Init == id \in Index /\ sc = <<>> /\ den = <<>> /\ nd = <<>> /\ sv = <<>> /\ at = {} /\ free = "load"

Load ==
  /\ free = "load"
  /\ LET s == TLCEval(Member(id))
         d == TLCEval(Denot(s))
         v == VRoot(s)
         P == TLCEval([a \in Agents(s) |-> Points([lo |-> s.ag[a].init, hi |-> s.ag[a].hi])])
     IN /\ sc' = s /\ den' = d
        /\ at' = {VNode(s, d, v, TLCEval([a \in Agents(s) |-> VTubeOfAgent(s, v, a)]))}
        /\ \E x \in [Agents(s) -> UNION { P[a] : a \in Agents(s) }] :
             /\ \A a \in Agents(s) : x[a] \in P[a]
             /\ nd' = [m |-> [a \in Agents(s) |-> s.ag[a].mode], x |-> [a \in Agents(s) |-> <<x[a]>>], start |-> 0, height |-> 0]
             /\ sv' = View(s, d, nd')
  /\ free' = "no"
  /\ UNCHANGED id

S == sv
W(v) == v.w
End(v, w) == v.nd.start + w.segs
Until == nd.start + S.rows - 1

(* The child z of node v: its mover starts a tube from its boxes, the others go on. *)
KidV(v, z) ==
  LET k == [m |-> z.m, start |-> z.start, height |-> z.height, inits |-> z.inits]
  IN VNode(sc, den, k, TLCEval([a \in Agents(sc) |->
            IF a = z.a THEN VTubeOfAgent(sc, z, a)
            ELSE SubSeq(v.tb[a], z.start - v.nd.start + 1, Len(v.tb[a]))]))

InTube(v, w, k, x) ==
  \E s \in 1..w.segs : /\ v.nd.start + s - 1 <= k /\ k <= v.nd.start + s
                       /\ \A a \in Agents(sc) : v.tb[a][s].lo[1] <= x[a][1] /\ x[a][1] <= v.tb[a][s].hi[1]
StateAt(k) == [a \in Agents(sc) |-> S.fl[a][k - nd.start + 1]]
Idle == S.kind \in {"limit", "horizon"}
VIdle(w) == w.kind \in {"limit", "horizon"}
(* A window that ends without a guard that holds on the whole set may lose executions;    *)
(* one that is closed by such a guard loses none.                                         *)
Left(v, w) == w.kind \in {"unsafe", "graze", "end"} /\ Until > End(v, w)

Fits(v) == LET w == W(v) IN
  /\ v.nd.m = nd.m
  /\ v.nd.start <= nd.start
  /\ Idle \/ VIdle(w) \/ \A k \in nd.start..Until : (k > End(v, w) /\ Left(v, w)) \/ InTube(v, w, k, StateAt(k))
Tells(v) == LET w == W(v) IN VIdle(w) \/ Left(v, w) \/ \A a \in Agents(sc) : S.hits[a] \subseteq w.asr[a]

Movers(z) == { a \in Agents(sc) : z.m[a] # nd.m[a] \/ z.x[a] # S.fl[a][S.rows] }

(* The execution takes one of its jumps.                                            *)
Jump ==
  /\ free = "no"
  /\ S.kind = "switch"
  /\ \E z \in S.kids :
       /\ nd' = z
       /\ sv' = View(sc, den, z)
       /\ LET here == { v \in at : Fits(v) /\ Tells(v) }
              why == IF Cardinality(Movers(z)) > 1 THEN "joint"
                     ELSE IF \E v \in here : W(v).kind = "unsafe" THEN "unsafe"
                     ELSE IF \E v \in here : VIdle(W(v)) THEN "height"
                     ELSE IF \E v \in here : Left(v, W(v)) THEN "left" ELSE "no"
          IN /\ free' = why
             /\ at' = IF why # "no" THEN {}
                      ELSE UNION { { KidV(v, y) : y \in { u \in W(v).kids : u.m = z.m /\ u.start <= z.start } } : v \in here }
       /\ UNCHANGED <<id, sc, den>>
Next == Load \/ Jump
Spec == Init /\ [][Next]_vars

(* --------------------------------- properties ---------------------------------- *)
(* P06: some node of the verification tree holds the execution, and reports what it violates. *)
Covered == free = "no" => \E v \in at : Fits(v) /\ Tells(v)
(* P13: heights *)
Heights == nd.height < sc.H /\ nd.start <= sc.N
(* P02: a node that switches has children, which start where it ends *)
Switches == S.kind = "switch" => S.kids # {} /\ \A z \in S.kids : z.start = Until /\ z.height = nd.height + 1
(* P04: a node stops where it is unsafe and nowhere else *)
Stops == S.kind = "unsafe" =>
           /\ \E a \in Agents(sc) : Violated(sc, den, WorldAt(sc, nd.m, S.fl, S.rows - 1), a) # {}
           /\ \A k \in 0..(S.rows - 2) : \A a \in Agents(sc) : Violated(sc, den, WorldAt(sc, nd.m, S.fl, k), a) = {}
(* P23: what the decision function computes directly is one of the transitions it denotes;  *)
(* it fails exactly where the assertions it denotes are violated.                           *)
DirectIsMove ==
  ~Idle => \A k \in 0..(S.rows - 1) : \A a \in Agents(sc) :
     LET w == WorldAt(sc, nd.m, S.fl, k)
         d == Direct(sc, w, a)
     IN /\ d.fail # 0 \/ (d.m = w.m[a] /\ d.x = w.x[a]) \/ [m |-> d.m, x |-> d.x] \in Moves(sc, den, w, a)
        /\ d.fail # 0 <=> Violated(sc, den, w, a) # {}
(* P07: a reachability node that stops has a reason, and its children start inside it.      *)
Windows == \A v \in at : v.w.kind \in {"full", "graze", "end"} =>
             /\ v.w.kids # {}
             /\ \A z \in v.w.kids : z.start >= v.nd.start /\ z.start < End(v, v.w)
Live == free # "load"
Inv1 == Live => Covered
Inv2 == Live => Heights /\ Switches /\ Stops
Inv3 == Live => DirectIsMove
Inv4 == Live => Windows
=============================================================================
