------------------------------ MODULE VerTrace ------------------------------
(* Validation of recorded verification trees; see SimTrace.  The specification    *)
(* also tracks which agent jumped into each node: that agent's tube starts from   *)
(* its initial boxes, every other agent goes on with the tube it had.             *)
EXTENDS VerseVer, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES_FILE)

VARIABLES cid, den, l, cnt, full, mover
vars == <<cid, den, l, cnt, full, mover>>

C == Cases[cid]
N0 == C.nodes[l]

Kinds == {"limit", "horizon", "unsafe", "full", "graze", "end", "flow"}

Init == /\ cid \in 1..Len(Cases)
        /\ den = Denot(Cases[cid].sc)
        /\ l = 1
        /\ cnt = [k \in Kinds |-> 0]
        /\ full = <<>>
        /\ mover = 1 :> {0}

Box(p) == [lo |-> p[1], hi |-> p[2]]
NodeOf(n) == TLCEval([m |-> n.mode, start |-> n.start, height |-> n.height,
              inits |-> [a \in 1..Len(n.init) |-> Canon(C.sc, [j \in 1..Len(n.init[a]) |-> Box(n.init[a][j])])]])
Strip(z) == [m |-> z.m, start |-> z.start, height |-> z.height, inits |-> z.inits]

KidIdx(i) == { j \in 1..Len(C.nodes) : C.nodes[j].parent = i }
RangeS(s) == { s[i] : i \in 1..Len(s) }
HitsOf(n) == [a \in 1..Len(n.hits) |-> RangeS(n.hits[a])]
Chk(ok, name) == IF ok THEN {} ELSE {name}

(* recorded row pair: <<tlo, lo, thi, hi>> *)
Seg(p) == [lo |-> p[2], hi |-> p[4]]

(* An incremental run may take the tube of any earlier set (C.cache) that contains the one  *)
(* at hand, has the same mode and the same remaining time.  Tubes are therefore tracked   *)
(* as pairs of bounds [lo, up]: from the sets at hand up to the hull with every cached     *)
(* set that may stand in for them.  Without such sets the bounds coincide.                *)
Cached(a, m, rem, b) ==
  { C.cache[i] : i \in { i \in DOMAIN C.cache :
            /\ C.cache[i].a = a /\ C.cache[i].m = m /\ C.cache[i].rem = rem
            /\ \A j \in DOMAIN b.lo : C.cache[i].lo[j] <= b.lo[j] /\ b.hi[j] <= C.cache[i].hi[j] } }

OwnTube(nd, a) ==
  LET sc == C.sc
      rem == sc.N - nd.start
      G == Groups(nd.inits[a], SegOf(sc))
      big == TLCEval([j \in DOMAIN G |-> FoldSet(LAMBDA e, acc : Hull([lo |-> e.lo, hi |-> e.hi], acc), G[j].box,
                                               Cached(a, nd.m[a], rem, G[j].box))])
      lo == TubeBoxes(sc.ag[a], nd.m[a], G, rem)
  IN TLCEval([lo |-> lo,
              up |-> IF \A j \in DOMAIN G : big[j] = G[j].box THEN lo
                     ELSE TubeBoxes(sc.ag[a], nd.m[a], [j \in DOMAIN G |-> [off |-> G[j].off, box |-> big[j]]], rem)])

(* Possible tubes of agent a in node l if agent j jumped into it (0: the root).         *)
TubesIf(j, a) ==
  LET n == N0
      nd == NodeOf(n)
  IN IF j = 0 \/ a = j \/ n.parent = 0 \/ full[n.parent] = <<>> THEN {OwnTube(nd, a)}
     ELSE LET d == n.start - C.nodes[n.parent].start
              pts == { pt \in full[n.parent][a] : d >= 0 /\ d < Len(pt.lo) }
          IN IF pts # {} THEN { [lo |-> SubSeq(pt.lo, d + 1, Len(pt.lo)), up |-> SubSeq(pt.up, d + 1, Len(pt.up))] : pt \in pts }
             ELSE {OwnTube(nd, a)}

Within(b, t, i) == \A j \in DOMAIN b.lo : /\ t.up[i].lo[j] <= b.lo[j] /\ b.lo[j] <= t.lo[i].lo[j]
                                          /\ t.lo[i].hi[j] <= b.hi[j] /\ b.hi[j] <= t.up[i].hi[j]
Fits(a, t) == \A i \in 1..Len(N0.trace[a]) : i <= Len(t.lo) /\ Within(Seg(N0.trace[a][i]), t, i)

TubeChoices(j) ==
  LET S == TLCEval([a \in Agents(C.sc) |->
               LET all == TubesIf(j, a)
                   fit == { t \in all : Fits(a, t) }
               IN IF fit # {} THEN fit ELSE {CHOOSE t \in all : TRUE}])
  IN IF \A a \in Agents(C.sc) : Cardinality(S[a]) = 1
     THEN {TLCEval([a \in Agents(C.sc) |-> CHOOSE t \in S[a] : TRUE])}
     ELSE TLCEval({ f \in [Agents(C.sc) -> UNION { S[a] : a \in Agents(C.sc) }] : \A a \in Agents(C.sc) : f[a] \in S[a] })

(* Where the bounds leave room, the recorded rows say which tube the node has.          *)
Known(a, t) ==
  IF t.lo = t.up \/ ~Fits(a, t) THEN t.lo
  ELSE TLCEval([i \in DOMAIN t.lo |-> IF i <= Len(N0.trace[a]) THEN Seg(N0.trace[a][i]) ELSE t.lo[i]])
Tighten(a, t) ==
  IF t.lo = t.up \/ ~Fits(a, t) THEN t
  ELSE [lo |-> Known(a, t),
        up |-> [i \in DOMAIN t.lo |-> IF i <= Len(N0.trace[a]) THEN Seg(N0.trace[a][i]) ELSE t.up[i]]]

RowsFit(tb) == \A a \in Agents(C.sc) : \A i \in 1..Len(N0.trace[a]) : i <= Len(tb[a]) /\ Seg(N0.trace[a][i]) = tb[a][i]

BadOf(v, tb) ==
  LET n == N0
      sc == C.sc
      kidsq == TLCEval([j \in KidIdx(l) |-> NodeOf(C.nodes[j])])
      kids == { kidsq[j] : j \in DOMAIN kidsq }
      want == { Strip(z) : z \in v.kids }
      active == v.kind \notin {"limit", "horizon"}
      segs(a) == IF Len(n.trace[a]) < v.segs THEN Len(n.trace[a]) ELSE v.segs
      pos(S) == { [m |-> z.m, start |-> z.start] : z \in S }
      hull(q) == [a \in Agents(sc) |-> HullSeq(q.inits[a])]
      covered(w) == \E k \in kids : /\ k.m = w.m /\ k.start <= w.start
                                    /\ \A a \in Agents(sc) : \A i \in 1..sc.ag[a].nv :
                                          hull(k)[a].lo[i] <= hull(w)[a].lo[i] /\ hull(k)[a].hi[i] >= hull(w)[a].hi[i]
  IN  Chk(n.off = 0, "offgrid")
      \cup Chk(n.type = "reachtube", "nodetype")
      \cup Chk(n.height < sc.H \/ l = 1, "height")
      \cup Chk(\A a \in Agents(sc) : v.asr[a] \subseteq HitsOf(n)[a], "asserts.missed")
      \cup Chk(\A a \in Agents(sc) : HitsOf(n)[a] \subseteq v.asr[a], "asserts.spurious")
      \cup (IF active
            THEN Chk(\A a \in Agents(sc) : \A i \in 1..Len(n.trace[a]) :
                        n.trace[a][i][1] = n.start + i - 1 /\ n.trace[a][i][3] = n.start + i - sc.ag[a].pts, "times")
                 \cup Chk(\A a \in Agents(sc) : Len(n.trace[a]) = v.segs, "cut." \o v.kind)
                 \cup Chk(\A a \in Agents(sc) : \A i \in 1..segs(a) : Seg(n.trace[a][i]) = tb[a][i], "tube")
                 \* soundness direction alone: the recorded tube contains the specified one
                 \cup Chk(\A a \in Agents(sc) : \A i \in 1..segs(a) :
                        \A j \in 1..sc.ag[a].nv : /\ n.trace[a][i][2][j] <= tb[a][i].lo[j]
                                                  /\ n.trace[a][i][4][j] >= tb[a][i].hi[j], "tube.unsound")
            ELSE Chk(\A a \in Agents(sc) : n.trace[a] = <<>> \/ RowsFit(tb), "leaf.rows"))
      \cup Chk(\A w \in want : covered(w), "kids.lost")
      \cup Chk(want \subseteq kids, "kids.missing")
      \cup Chk(pos(kids) \subseteq pos(want), "kids.spurious." \o v.kind)
      \cup Chk(kids \subseteq want, "kids.extra." \o v.kind)
      \cup (IF l = 1 THEN Chk(NodeOf(n) = VRoot(sc), "root") ELSE Chk(n.parent >= 1 /\ n.parent < l, "parent"))
      \cup Chk(Cardinality({ C.nodes[j].id : j \in 1..l }) = l, "ids")

(* The engine's tubes carry a relative numerical error of about 1e-9, so whether a guard *)
(* meets a box that it only touches is not determined.  A deviating node is set aside    *)
(* when its verdicts change under shrinking the tube by one unit (an eighth of the grid).*)
Shrunk(tb) == [a \in DOMAIN tb |-> [i \in DOMAIN tb[a] |->
                 [lo |-> [j \in DOMAIN tb[a][i].lo |-> IF tb[a][i].lo[j] < tb[a][i].hi[j] THEN tb[a][i].lo[j] + 1 ELSE tb[a][i].lo[j]],
                  hi |-> [j \in DOMAIN tb[a][i].lo |-> IF tb[a][i].lo[j] < tb[a][i].hi[j] THEN tb[a][i].hi[j] - 1 ELSE tb[a][i].hi[j]]]]]
Verdict(v) == <<v.kind, v.segs, v.asr, { [a |-> z.a, m |-> z.m, start |-> z.start, n |-> Len(z.inits[z.a])] : z \in v.kids }>>
Touching(v, tb) ==
  /\ v.kind \notin {"limit", "horizon"}
  /\ Verdict(VView(C.sc, den, NodeOf(N0), TLCEval(Shrunk(tb)))) # Verdict(v)

Report(b, v, tb) ==
  IF b = {} THEN TRUE
  ELSE IF Touching(v, tb) THEN PrintT("STAT " \o ToJson([touching |-> 1]))
  ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> l, kind |-> v.kind, bad |-> SetToSeq(b)]))

(* Which agents can have jumped into a child: those of the matching specified         *)
(* children; for an unmatched child, those whose mode or boxes differ from the tube.  *)
Movers(v, tb) ==
  [j \in KidIdx(l) |->
     LET k == NodeOf(C.nodes[j])
         fit == { z.a : z \in { y \in v.kids : Strip(y) = k } }
         near == { z.a : z \in { y \in v.kids : y.m = k.m /\ y.start = k.start } }
         diff == { a \in Agents(C.sc) : k.m[a] # N0.mode[a] }
     IN IF fit # {} THEN fit ELSE IF near # {} THEN near ELSE IF diff # {} THEN diff ELSE Agents(C.sc)]

(* One node is consumed; its kind tells what the specification makes of it. *)
Consume ==
  /\ l <= Len(C.nodes)
  /\ LET nd == NodeOf(N0)
         act == VKind(C.sc, nd) = "active"
         js == mover[l]
         pairs == IF act \/ nd.start < C.sc.N + C.sc.ag[1].pts THEN TLCEval(UNION { TubeChoices(j) : j \in js })
                  ELSE {[a \in Agents(C.sc) |-> [lo |-> <<>>, up |-> <<>>]]}
         tbs == TLCEval([p \in pairs |-> [a \in Agents(C.sc) |-> Known(a, p[a])]])
         view == TLCEval([p \in pairs |-> VView(C.sc, den, nd, tbs[p])])
         good == IF Cardinality(pairs) = 1 THEN pairs ELSE TLCEval({ p \in pairs : BadOf(view[p], tbs[p]) = {} })
         fits == IF good # {} THEN good ELSE { p \in pairs : RowsFit(tbs[p]) }
         p0 == IF fits # {} THEN CHOOSE x \in fits : TRUE ELSE CHOOSE x \in pairs : TRUE
         tb == tbs[p0]
         v == view[p0]
     IN /\ Report(BadOf(v, tb), v, tb)
        /\ cnt' = [cnt EXCEPT ![v.kind] = @ + 1]
        /\ full' = Append(full, IF act THEN TLCEval([a \in Agents(C.sc) |-> { Tighten(a, x[a]) : x \in fits \cup {p0} }]) ELSE <<>>)
        /\ mover' = Movers(v, tb) @@ mover
  /\ l' = l + 1
  /\ UNCHANGED <<cid, den>>

Done == /\ l = Len(C.nodes) + 1
        /\ PrintT("STAT " \o ToJson(cnt @@ [cases |-> 1, nodes |-> Len(C.nodes)]))
        /\ l' = l + 1
        /\ UNCHANGED <<cid, den, cnt, full, mover>>

Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
