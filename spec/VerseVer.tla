------------------------------ MODULE VerseVer ------------------------------
(* The verification engine: the same scenarios on boxes.  A node carries, per  *)
(* agent, the sequence of initial boxes met while a guard window was open; its *)
(* tube is a sequence of segments (hulls of two consecutive grid times).       *)
EXTENDS VerseSim

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

Hull(b, c) == TLCEval([lo |-> [i \in DOMAIN b.lo |-> Mn(b.lo[i], c.lo[i])],
                       hi |-> [i \in DOMAIN b.hi |-> Mx(b.hi[i], c.hi[i])]])
RECURSIVE HullSeq(_)
HullSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Hull(s[1], HullSeq(Tail(s)))

(* One sampling period of a box: every variable takes its own extreme value, also over  *)
(* the uncertain parameters w in [wlo, whi] that are added to the variables.            *)
StepBox(ag, m, b) ==
  LET c(i) == ag.cpl[i]
      L(i) == IF c(i) = 0 THEN 0 ELSE IF c(i) > 0 THEN b.lo[c(i)] ELSE -b.hi[-c(i)]
      U(i) == IF c(i) = 0 THEN 0 ELSE IF c(i) > 0 THEN b.hi[c(i)] ELSE -b.lo[-c(i)]
  IN TLCEval([lo |-> [i \in DOMAIN b.lo |-> b.lo[i] + ag.vel[m[1]][i] + ag.wlo[i] + L(i)],
              hi |-> [i \in DOMAIN b.hi |-> b.hi[i] + ag.vel[m[1]][i] + ag.whi[i] + U(i)]])

(* Tube of one box for `rem` sampling periods: segment k covers times k..k+1.  Methods for *)
(* discrete time (pts = 1) only look at the sampled times: their segment k is the box at k. *)
RECURSIVE TubeOf(_, _, _, _)
TubeOf(ag, m, b, rem) ==
  IF ag.pts = 1 THEN << b >> \o (IF rem = 0 THEN <<>> ELSE TubeOf(ag, m, StepBox(ag, m, b), rem - 1))
  ELSE IF rem = 0 THEN <<>> ELSE LET c == StepBox(ag, m, b) IN << Hull(b, c) >> \o TubeOf(ag, m, c, rem - 1)

(* Initial boxes come in the order of their hit times; groups of `seg` of them are  *)
(* merged, group j starting at the grid time of its first box.                      *)
Groups(inits, seg) ==
  LET n == (Len(inits) + seg - 1) \div seg
  IN TLCEval([j \in 1..n |-> [off |-> (j - 1) * seg,
                      box |-> HullSeq(SubSeq(inits, (j - 1) * seg + 1, Mn(j * seg, Len(inits))))]])

(* ------------------------- partitioned verification ------------------------- *)
(* With sc.part = n > 0 sets are split into n equal parts along each dimension of    *)
(* sc.pdims in which they extend.  All initial sets of a node start with it.         *)
SegOf(sc) == IF sc.part > 0 THEN 1000 ELSE sc.seg
Parts(sc, b) ==
  LET D == { i \in { sc.pdims[j] : j \in DOMAIN sc.pdims } : b.lo[i] < b.hi[i] }
      w(i) == (b.hi[i] - b.lo[i]) \div sc.part
  IN TLCEval({ [lo |-> [i \in DOMAIN b.lo |-> IF i \in D THEN b.lo[i] + f[i] * w(i) ELSE b.lo[i]],
                hi |-> [i \in DOMAIN b.lo |-> IF i \in D THEN b.lo[i] + (f[i] + 1) * w(i) ELSE b.hi[i]]]
               : f \in [D -> 0..(sc.part - 1)] })
(* the order in which the parts come does not matter *)
Canon(sc, s) == IF sc.part = 0 THEN s ELSE SetToSeq({ s[i] : i \in DOMAIN s })

TubeBoxes(ag, m, G, rem) ==
  LET T == TLCEval([j \in DOMAIN G |-> TubeOf(ag, m, G[j].box, rem)])
  IN TLCEval([k \in 1..(rem + ag.pts) |->
        LET live == { j \in DOMAIN G : G[j].off < k }
        IN FoldSet(LAMBDA j, acc : Hull(T[j][k - G[j].off], acc), T[1][k], live)])
Tube(ag, m, inits, rem, seg) == TubeBoxes(ag, m, Groups(inits, seg), rem)

(* ---------------- truth over a box: Kleene first, then grid points ----------- *)
RECURSIVE IE(_, _, _, _, _), KE(_, _, _, _, _), FV(_, _, _, _, _)

IAdd(x, y) == [lo |-> x.lo + y.lo, hi |-> x.hi + y.hi]
ISub(x, y) == [lo |-> x.lo - y.hi, hi |-> x.hi - y.lo]
IMul(n, x) == IF n >= 0 THEN [lo |-> n * x.lo, hi |-> n * x.hi] ELSE [lo |-> n * x.hi, hi |-> n * x.lo]

IE(e, h, wb, a, o) ==
  CASE e.k = "c"   -> [lo |-> e.n, hi |-> e.n]
    [] e.k = "v"   -> LET g == IF e.w = "e" THEN a ELSE o IN [lo |-> wb.b[g].lo[e.i], hi |-> wb.b[g].hi[e.i]]
    [] e.k = "+"   -> IAdd(IE(e.l, h, wb, a, o), IE(e.r, h, wb, a, o))
    [] e.k = "-"   -> ISub(IE(e.l, h, wb, a, o), IE(e.r, h, wb, a, o))
    [] e.k = "*"   -> IMul(e.n, IE(e.r, h, wb, a, o))
    [] e.k = "lc"  -> IF LcTrack(e, h, wb, a, o) = 0 THEN [lo |-> 0, hi |-> 0]
                      ELSE LET b == wb.b[LcWho(e, a, o)]
                               i == LcIdx(e, h, wb, a, o) IN [lo |-> b.lo[i], hi |-> b.hi[i]]
    [] e.k = "sum" -> FoldSet(LAMBDA p, acc : IAdd(IE(e.e, h, wb, a, p), acc), [lo |-> 0, hi |-> 0], Others(wb, a))

K3(t, f) == IF t THEN "t" ELSE IF f THEN "f" ELSE "u"
KCmp(op, x, y) ==
  CASE op = "<"  -> K3(x.hi < y.lo, x.lo >= y.hi)
    [] op = "<=" -> K3(x.hi <= y.lo, x.lo > y.hi)
    [] op = ">"  -> K3(x.lo > y.hi, x.hi <= y.lo)
    [] op = ">=" -> K3(x.lo >= y.hi, x.hi < y.lo)
    [] op = "==" -> K3(x.lo = x.hi /\ y.lo = y.hi /\ x.lo = y.lo, x.hi < y.lo \/ x.lo > y.hi)
    [] op = "!=" -> K3(x.hi < y.lo \/ x.lo > y.hi, x.lo = x.hi /\ y.lo = y.hi /\ x.lo = y.lo)
KAll(S) == IF \A x \in S : x = "t" THEN "t" ELSE IF "f" \in S THEN "f" ELSE "u"
KAny(S) == IF "t" \in S THEN "t" ELSE IF \A x \in S : x = "f" THEN "f" ELSE "u"
KNot(x) == CASE x = "t" -> "f" [] x = "f" -> "t" [] OTHER -> "u"
K2(b) == IF b THEN "t" ELSE "f"

KE(e, h, wb, a, o) ==
  CASE e.k \in {"T", "F", "m", "nm", "mm", "hx"} -> K2(BE(e, h, [m |-> wb.m, x |-> <<>>], a, o))
    [] e.k = "cmp" -> KCmp(e.op, IE(e.l, h, wb, a, o), IE(e.r, h, wb, a, o))
    [] e.k = "and" -> KAll({ KE(e.es[j], h, wb, a, o) : j \in 1..Len(e.es) })
    [] e.k = "or"  -> KAny({ KE(e.es[j], h, wb, a, o) : j \in 1..Len(e.es) })
    [] e.k = "not" -> KNot(KE(e.e, h, wb, a, o))
    [] e.k = "any" -> KAny({ KE(e.e, h, wb, a, p) : p \in Others(wb, a) })
    [] e.k = "all" -> KAll({ KE(e.e, h, wb, a, p) : p \in Others(wb, a) })

(* variables (agent, index) of the parts of e that the box leaves undecided *)
FV(e, h, wb, a, o) ==
  CASE e.k = "v" -> { <<IF e.w = "e" THEN a ELSE o, e.i>> }
    [] e.k \in {"+", "-"} -> FV(e.l, h, wb, a, o) \cup FV(e.r, h, wb, a, o)
    [] e.k = "*" -> FV(e.r, h, wb, a, o)
    [] e.k = "sum" -> UNION { FV(e.e, h, wb, a, p) : p \in Others(wb, a) }
    [] e.k = "c" -> {}
    [] e.k = "lc" -> IF LcTrack(e, h, wb, a, o) = 0 THEN {} ELSE { <<LcWho(e, a, o), LcIdx(e, h, wb, a, o)>> }
    [] KE(e, h, wb, a, o) # "u" -> {}
    [] e.k = "cmp" -> FV(e.l, h, wb, a, o) \cup FV(e.r, h, wb, a, o)
    [] e.k \in {"and", "or"} -> UNION { FV(e.es[j], h, wb, a, o) : j \in 1..Len(e.es) }
    [] e.k = "not" -> FV(e.e, h, wb, a, o)
    [] e.k \in {"any", "all"} -> UNION { FV(e.e, h, wb, a, p) : p \in Others(wb, a) }
    [] OTHER -> {}

(* Sample points that meet every cell cut out by thresholds 4 mod 8 on values when  *)
(* boxes have corners 0 mod 8; where comparisons involve sums and differences, all  *)
(* integer points are looked at.                                                    *)
Grid(lo, hi) == { v \in lo..hi : v % 4 = 0 } \cup {lo, hi}

RECURSIVE Relates(_, _, _, _, _)
Relates(e, h, wb, a, o) ==
  CASE e.k = "cmp" -> Cardinality(FV(e.l, h, wb, a, o) \cup FV(e.r, h, wb, a, o)) > 1
    [] e.k \in {"and", "or"} -> \E j \in 1..Len(e.es) : Relates(e.es[j], h, wb, a, o)
    [] e.k = "not" -> Relates(e.e, h, wb, a, o)
    [] e.k \in {"any", "all"} -> \E p \in Others(wb, a) : Relates(e.e, h, wb, a, p)
    [] OTHER -> FALSE

Fix(wb, v, n) == TLCEval([wb EXCEPT !.b[v[1]].lo[v[2]] = n, !.b[v[1]].hi[v[2]] = n])

(* Does some point of the box satisfy e?  Branch on a variable that matters, prune by Kleene. *)
RECURSIVE SomeGridPoint(_, _, _, _)
SomeGridPoint(e, h, wb, a) ==
  LET q == KE(e, h, wb, a, 0) IN
  IF q # "u" THEN q = "t"
  ELSE LET v == CHOOSE z \in { y \in FV(e, h, wb, a, 0) : wb.b[y[1]].lo[y[2]] < wb.b[y[1]].hi[y[2]] } : TRUE
       IN \E n \in Grid(wb.b[v[1]].lo[v[2]], wb.b[v[1]].hi[v[2]]) : SomeGridPoint(e, h, Fix(wb, v, n), a)
(* the same over all integer points of the box, by bisection along the widest variable *)
RECURSIVE SomeIntPoint(_, _, _, _)
SomeIntPoint(e, h, wb, a) ==
  LET q == KE(e, h, wb, a, 0) IN
  IF q # "u" THEN q = "t"
  ELSE LET V == TLCEval(FV(e, h, wb, a, 0))
           w(y) == wb.b[y[1]].hi[y[2]] - wb.b[y[1]].lo[y[2]]
           v == CHOOSE z \in V : \A y \in V : w(y) <= w(z)
           lo == wb.b[v[1]].lo[v[2]]
           hi == wb.b[v[1]].hi[v[2]]
           mid == lo + ((hi - lo) \div 2)
       IN \/ SomeIntPoint(e, h, TLCEval([wb EXCEPT !.b[v[1]].hi[v[2]] = mid]), a)
          \/ SomeIntPoint(e, h, TLCEval([wb EXCEPT !.b[v[1]].lo[v[2]] = mid + 1]), a)
SomePoint(e, h, wb, a) == IF Relates(e, h, wb, a, 0) THEN SomeIntPoint(e, h, wb, a) ELSE SomeGridPoint(e, h, wb, a)

Lit(t) == IF t[2] THEN t[1] ELSE [k |-> "not", e |-> t[1]]
Conj(tests) == [k |-> "and", es |-> SetToSeq({ Lit(t) : t \in tests })]

Sat(e, h, wb, a) == SomePoint(e, h, wb, a)
Contained(e, h, wb, a) == ~SomePoint([k |-> "not", e |-> e], h, wb, a)

(* ------------------------- one segment of a node ----------------------------- *)
Gap(x, y) == IF x.hi[1] < y.lo[1] THEN y.lo[1] - x.hi[1] ELSE IF y.hi[1] < x.lo[1] THEN x.lo[1] - y.hi[1] ELSE 0
(* Lane coordinates of a box: intervals of their own, exact for lanes along an axis.  (A lane *)
(* coordinate and the position it comes from do not occur together in the guards below.)       *)
ILane(l, c, X, Y) ==
  LET x == ISub(X, [lo |-> l.x, hi |-> l.x])
      y == ISub(Y, [lo |-> l.y, hi |-> l.y])
  IN IF c = 0 THEN IAdd(IMul(l.dx, x), IMul(l.dy, y)) ELSE IAdd(IMul(l.dx, y), IMul(-l.dy, x))
VWithLanes(sc, wb) ==
  IF sc.lanes = <<>> THEN wb
  ELSE [m |-> wb.m, nv |-> sc.ag[1].nv,
        b |-> TLCEval([g \in DOMAIN wb.b |->
               LET b == wb.b[g]
                   lc == TLCEval([i \in 1..(2 * Len(sc.lanes)) |->
                           ILane(sc.lanes[(i + 1) \div 2], (i + 1) % 2, [lo |-> b.lo[1], hi |-> b.hi[1]], [lo |-> b.lo[2], hi |-> b.hi[2]])])
               IN [lo |-> b.lo \o [i \in DOMAIN lc |-> lc[i].lo], hi |-> b.hi \o [i \in DOMAIN lc |-> lc[i].hi]]])]

VSensed(sc, wb, a) ==
  VWithLanes(sc,
  IF sc.off = 0 /\ sc.reach < 0 THEN wb
  ELSE LET S == Seen(sc, a, LAMBDA o : Gap(wb.b[a], wb.b[o]) <= sc.reach)
       IN TLCEval([m |-> [o \in S |-> wb.m[o]],
                   b |-> [o \in S |-> IF o = a THEN [lo |-> [wb.b[a].lo EXCEPT ![1] = @ + sc.off], hi |-> [wb.b[a].hi EXCEPT ![1] = @ + sc.off]]
                                      ELSE wb.b[o]]]))

VViolated(sc, den, wt, a) ==
  LET wb == VSensed(sc, wt, a) IN
  { x.l : x \in { y \in den[a].asr :
      Sat([k |-> "and", es |-> <<Conj(y.pre), [k |-> "not", e |-> y.c]>>], sc.h, wb, a) } }

VEnabled(sc, den, wb, a) ==
  LET CD == den[a].cand IN TLCEval([k \in DOMAIN CD |-> { x \in CD[k] : Sat(Conj(x.c), sc.h, wb, a) }])

ResetBox(sc, wb, a, r, k, v) ==
  IF k[1] = "d" THEN [r EXCEPT !.m[k[2]] = DVal(v, sc.h, wb, a)]
  ELSE LET q == IE(v, sc.h, wb, a, 0) IN [r EXCEPT !.b.lo[k[2]] = q.lo, !.b.hi[k[2]] = q.hi]

(* Joint resets of one agent: [ch = the chosen alternatives, m, b = image box].  All variables *)
(* that can be reset are reset together; only some of them where some state of the box         *)
(* satisfies the chosen guards and none of the others'.                                        *)
Choose(sc, ws, wb, a, E, keys) ==
  FoldSet(LAMBDA k, acc :
            { [ResetBox(sc, ws, a, z[1], k, z[2].v) EXCEPT !.ch = z[1].ch \cup {<<k, z[2]>>}] : z \in acc \X E[k] },
          { [ch |-> {}, m |-> wb.m[a], b |-> wb.b[a]] }, keys)
Alone(sc, ws, a, E, rest, ch) ==
  /\ ~\E z \in ch : \E k \in rest : \E x \in E[k] : x.c \subseteq z[2].c
  /\ SomePoint([k |-> "and", es |-> SetToSeq({ Conj(z[2].c) : z \in ch }
                                          \cup { [k |-> "not", e |-> Conj(x.c)] : x \in UNION { E[k] : k \in rest } })], sc.h, ws, a)
VResets(sc, den, wb, a) ==
  IF sc.ag[a].dl # 1 THEN {}
  ELSE LET ws == VSensed(sc, wb, a)
           E == VEnabled(sc, den, ws, a)
           act == { k \in DOMAIN E : E[k] # {} }
       IN IF act = {} THEN {}
          ELSE Choose(sc, ws, wb, a, E, act)
               \cup UNION { { r \in Choose(sc, ws, wb, a, E, keys) : Alone(sc, ws, a, E, act \ keys, r.ch) }
                            : keys \in (SUBSET act) \ {{}, act} }

VPermitted(sc, wb, a, resets) == { r \in resets : MapOk(sc, a, wb.m[a], r.m) }
VMoves(sc, den, wb, a) == VPermitted(sc, wb, a, VResets(sc, den, wb, a))

(* The window closes when the whole set is inside some guard that the map lets pass, alone  *)
(* and along with every other guard that may hold at the same time.                          *)
AllInside(sc, wb, a, resets, moves) ==
  LET ws == VSensed(sc, wb, a) IN
  moves # {} /\
  LET stuck == TLCEval(UNION { r.ch : r \in resets \ moves })
  IN \E r \in moves : \E z \in r.ch \ stuck : Contained(Conj(z[2].c), sc.h, ws, a)

BoxWorld(sc, m, tb, k) == TLCEval([m |-> m, b |-> [a \in Agents(sc) |-> tb[a][k]]])

(* Scan the segments: an assertion anywhere stops the node; otherwise collect the   *)
(* first window of consecutive segments in which some transition is possible.       *)
(* The window ends when a guard contains the whole set ("full") or when a segment   *)
(* meets no guard any more ("graze": the engine deliberately drops the remainder).  *)
(* No window ends before the last of the node's initial sets has entered the tube.  *)
RECURSIVE VScan(_, _, _, _, _, _, _, _, _)
VScan(sc, den, m, tb, ent, k, rem, hits, seen) ==
  IF k > rem THEN [ev |-> IF hits = <<>> THEN "none" ELSE "end", k |-> rem, asr |-> seen, hits |-> hits]
  ELSE LET wb == BoxWorld(sc, m, tb, k)
           asr == TLCEval([a \in Agents(sc) |-> VViolated(sc, den, wb, a)])
           rs == TLCEval([a \in Agents(sc) |-> VResets(sc, den, wb, a)])
           mv == TLCEval([a \in Agents(sc) |-> VPermitted(sc, wb, a, rs[a])])
           hit == \E a \in Agents(sc) : mv[a] # {}
       IN IF sc.uc = 0 /\ \E a \in Agents(sc) : asr[a] # {}
          THEN [ev |-> "unsafe", k |-> k, asr |-> asr, hits |-> hits]
          ELSE IF ~hit /\ hits # <<>> /\ k > ent
          THEN [ev |-> "graze", k |-> k - 1, asr |-> seen, hits |-> hits]
          ELSE LET hits2 == IF hit THEN Append(hits, [k |-> k, mv |-> mv]) ELSE hits
                   seen2 == TLCEval(Join(seen, asr))
               IN IF k > ent /\ \E a \in Agents(sc) : AllInside(sc, wb, a, rs[a], mv[a])
                  THEN [ev |-> "full", k |-> k, asr |-> seen2, hits |-> hits2]
                  ELSE VScan(sc, den, m, tb, ent, k + 1, rem, hits2, seen2)

(* One child per agent, joint choice of alternatives, destination and maximal run   *)
(* of consecutive segments: it starts at the first one and carries all images.      *)
Occ(hits, a) == UNION { { [k |-> hits[j].k, ch |-> r.ch, m |-> r.m, b |-> r.b] : r \in hits[j].mv[a] } : j \in DOMAIN hits }

RunEnd(occ, z) ==
  LET ks == { y.k : y \in { x \in occ : x.ch = z.ch /\ x.m = z.m } }
      RECURSIVE Go(_)
      Go(k) == IF k + 1 \in ks THEN Go(k + 1) ELSE k
  IN Go(z.k)
(* Reset images of the parts of everything the mover's set passes in the window.     *)
PartImages(sc, m, tb, a, z, last) ==
  LET here == BoxWorld(sc, m, tb, z.k)
      all == HullSeq(SubSeq(tb[a], z.k, last))
      Image(p) == LET wb == [here EXCEPT !.b[a] = p]
                      ws == VSensed(sc, wb, a)
                  IN FoldSet(LAMBDA c, r : ResetBox(sc, ws, a, r, c[1], c[2].v), [ch |-> {}, m |-> m[a], b |-> p], z.ch).b
  IN SetToSeq({ Image(p) : p \in Parts(sc, all) })

RunFrom(occ, z) ==
  LET same == { y \in occ : y.ch = z.ch /\ y.m = z.m }
      RECURSIVE Go(_)
      Go(k) == LET here == { y \in same : y.k = k } IN
               IF here = {} THEN <<>> ELSE << (CHOOSE y \in here : TRUE).b >> \o Go(k + 1)
  IN Go(z.k)

VKids(sc, m, tb, start, height, hits) ==
  UNION { LET occ == Occ(hits, a)
              firsts == { z \in occ : ~\E y \in occ : y.ch = z.ch /\ y.m = z.m /\ y.k = z.k - 1 }
          IN { [a |-> a, m |-> [m EXCEPT ![a] = z.m], start |-> start + z.k - 1, height |-> height + 1,
                inits |-> [c \in Agents(sc) |-> IF c = a THEN (IF sc.part > 0 THEN PartImages(sc, m, tb, a, z, RunEnd(occ, z)) ELSE RunFrom(occ, z)) ELSE <<tb[c][z.k]>>]] : z \in firsts }
          : a \in Agents(sc) }

(* The agent that jumped gets the tube of its initial boxes; the others go on with   *)
(* the tube they had.                                                                *)
VTubeOfAgent(sc, nd, a) == Tube(sc.ag[a], nd.m[a], nd.inits[a], sc.N - nd.start, SegOf(sc))

VKind(sc, nd) == IF nd.height >= sc.H - 1 THEN "limit" ELSE IF nd.start >= sc.N THEN "horizon" ELSE "active"

(* Segments before the last group of initial sets enters. *)
Entered(sc, nd) == FoldSet(LAMBDA a, acc : Mx(((Len(nd.inits[a]) - 1) \div SegOf(sc)) * SegOf(sc), acc), 0, Agents(sc))

(* Complete effect of processing node [m, inits, start, height] whose tube is tb.    *)
VView(sc, den, nd, tb) ==
  IF VKind(sc, nd) # "active"
  THEN [kind |-> VKind(sc, nd), segs |-> 0, asr |-> NoHits(sc), kids |-> {}]
  ELSE LET rem == CHOOSE n \in {Len(tb[a]) : a \in Agents(sc)} : \A a \in Agents(sc) : n <= Len(tb[a])
           s == VScan(sc, den, nd.m, tb, Entered(sc, nd), 1, rem, <<>>, NoHits(sc))
       IN CASE s.ev = "unsafe" -> [kind |-> "unsafe", segs |-> s.k, asr |-> s.asr, kids |-> {}]
            [] s.ev = "none" -> [kind |-> "flow", segs |-> rem, asr |-> s.asr, kids |-> {}]
            [] OTHER -> [kind |-> s.ev, segs |-> s.hits[Len(s.hits)].k, asr |-> s.asr,
                         kids |-> VKids(sc, nd.m, tb, nd.start, nd.height, s.hits)]

VRoot(sc) == [m |-> [a \in Agents(sc) |-> sc.ag[a].mode], start |-> 0, height |-> 0,
              inits |-> [a \in Agents(sc) |-> LET b == [lo |-> sc.ag[a].init, hi |-> sc.ag[a].hi]
                                         IN IF sc.part > 0 /\ sc.pinit = 1 THEN SetToSeq(Parts(sc, b)) ELSE <<b>>]]
=============================================================================
