------------------------------- MODULE Lanes -------------------------------
(* Road geometry: lanes made of straight pieces and arcs, the coordinates of a  *)
(* position in a lane, and the guards over them. Lengths are in hundredths of a *)
(* unit, angles in hundredths of a degree; sines are table values scaled by     *)
(* 10000. Observations are compared up to Tol; where two answers are within Tol *)
(* of each other (a position halfway between two pieces) either is right.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLES cid, l
vars == <<cid, l>>
C == Cases[cid]

Tol == 6
Back == 300          \* a piece also owns the positions up to three units before its start

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, t) == Abs(a - b) <= t
RDiv(a, b) == IF a >= 0 THEN (a + (b \div 2)) \div b ELSE -((-a + (b \div 2)) \div b)

(* sin(d) * 10000 for d = 0..90 *)
Tab == C.sin
SinD(d) == LET e == d % 360 IN
  CASE e <= 90 -> Tab[e + 1]
    [] e <= 180 -> Tab[181 - e]
    [] e <= 270 -> -Tab[e - 179]
    [] OTHER -> -Tab[361 - e]
CosD(d) == SinD(d + 90)

RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Len2(x, y) == Root((x * x) + (y * y), 0, 46000)

(* direction of (x, y) in hundredths of a degree, 0 <= . < 36000 *)
Cross(d, x, y) == (CosD(d) * y) - (SinD(d) * x)
RECURSIVE Sector(_, _, _, _)
(* the whole degree d with d <= direction < d + 1, searched within [lo, hi] of less than half a turn *)
Sector(x, y, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF Cross(m, x, y) >= 0 THEN Sector(x, y, m, hi) ELSE Sector(x, y, lo, m - 1)
Dir(x, y) ==
  LET q == CASE x > 0 /\ y >= 0 -> 0 [] x <= 0 /\ y > 0 -> 90 [] x < 0 /\ y <= 0 -> 180 [] OTHER -> 270
      d == Sector(x, y, q, q + 89)
      \* beyond the whole degree: cross product / length is the sine of the rest
      rest == ((Cross(d, x, y) \div Max2(Len2(x, y), 1)) * 573) \div 1000
  IN (100 * d) + rest
Wrap(a) == LET b == a % 36000 IN IF b >= 18000 THEN b - 36000 ELSE b

(* ---------------------------------------------------------------- lanes *)
(* A lane is given by where it starts, its initial direction and its pieces.   *)
(* straight: [k |-> "S", len]; arc: [k |-> "C", r, sweep (whole degrees), sg    *)
(* (1 = left turn, -1 = right turn)]. Start(lane) places every piece.           *)
ArcLen(r, sweep) == RDiv(r * sweep * 71, 4068)                \* r * sweep * pi / 180, with pi = 355/113

Step(seg, q) ==
  IF seg.k = "S"
  THEN [k |-> "S", x |-> q.x, y |-> q.y, d |-> q.d, len |-> seg.len, r |-> 0, sg |-> 0, sum |-> q.sum,
        nx |-> q.x + RDiv(seg.len * CosD(q.d), 10000), ny |-> q.y + RDiv(seg.len * SinD(q.d), 10000), nd |-> q.d]
  ELSE LET cx == q.x - RDiv(seg.sg * seg.r * SinD(q.d), 10000)
           cy == q.y + RDiv(seg.sg * seg.r * CosD(q.d), 10000)
           ph == (q.d - (90 * seg.sg)) % 360
           e == (ph + (seg.sg * seg.sweep)) % 360
       IN [k |-> "C", x |-> cx, y |-> cy, d |-> ph, len |-> ArcLen(seg.r, seg.sweep), r |-> seg.r, sg |-> seg.sg, sum |-> q.sum,
           nx |-> cx + RDiv(seg.r * CosD(e), 10000), ny |-> cy + RDiv(seg.r * SinD(e), 10000), nd |-> (q.d + (seg.sg * seg.sweep)) % 360]

RECURSIVE Place(_, _, _)
Place(segs, k, q) ==
  IF k > Len(segs) THEN <<>>
  ELSE LET s == Step(segs[k], q) IN <<s>> \o Place(segs, k + 1, [x |-> s.nx, y |-> s.ny, d |-> s.nd, sum |-> q.sum + s.len])
Lane(ln) == TLCEval(Place(ln.segs, 1, [x |-> ln.x, y |-> ln.y, d |-> ln.d, sum |-> 0]))

(* coordinates in one piece: [lon, lat, hd, ok]; ok = FALSE where the direction is not determined *)
Local(s, px, py) ==
  LET x == px - s.x
      y == py - s.y
  IN IF s.k = "S"
     THEN [lon |-> RDiv((x * CosD(s.d)) + (y * SinD(s.d)), 10000), lat |-> RDiv((y * CosD(s.d)) - (x * SinD(s.d)), 10000), hd |-> Wrap(100 * s.d), ok |-> TRUE]
     ELSE LET dist == Len2(x, y)
              rel == Wrap(Dir(x, y) - (100 * s.d))
          IN [lon |-> s.sg * RDiv(RDiv(rel * s.r, 100) * 71, 4068), lat |-> s.sg * (s.r - dist), hd |-> Wrap((100 * s.d) + rel + (9000 * s.sg)),
              ok |-> Abs(rel) < 17980 /\ dist > 500]

World(s, lon, lat) ==
  IF s.k = "S"
  THEN <<s.x + RDiv((lon * CosD(s.d)) - (lat * SinD(s.d)), 10000), s.y + RDiv((lon * SinD(s.d)) + (lat * CosD(s.d)), 10000)>>
  ELSE LET \* direction in hundredths of a degree, by interpolation in the table
           a == (100 * s.d) + (s.sg * RDiv(RDiv(lon * 4068, 71) * 100, s.r))
           b == a % 36000
           d == b \div 100
           f == b % 100
           co == CosD(d) + RDiv((CosD(d + 1) - CosD(d)) * f, 100)
           si == SinD(d) + RDiv((SinD(d + 1) - SinD(d)) * f, 100)
           q == s.r - (s.sg * lat)
       IN <<s.x + RDiv(q * co, 10000), s.y + RDiv(q * si, 10000)>>

(* All right answers for a position: which piece it can belong to, and with which coordinates. *)
Answers(lane, px, py) ==
  LET loc == TLCEval([i \in DOMAIN lane |-> Local(lane[i], px, py)])
      maybe == { i \in DOMAIN lane : loc[i].lon >= -Back - Tol /\ loc[i].lon <= lane[i].len + Tol }
      sure == { i \in maybe : loc[i].lon >= -Back + Tol /\ loc[i].lon < lane[i].len - Tol }
      best(i) == \A j \in sure : Abs(loc[i].lat) <= Abs(loc[j].lat) + Tol
  IN [ok |-> (\A i \in DOMAIN lane : loc[i].ok) /\ sure # {},
      ans |-> { [i |-> i, lon |-> lane[i].sum + loc[i].lon, lat |-> loc[i].lat, hd |-> loc[i].hd, cur |-> lane[i].k = "C"] : i \in { j \in maybe : best(j) } }]

(* ---------------------------------------------------------------- checks *)
Chk(ok, name) == IF ok THEN {} ELSE {name}
Fits(o, a) == /\ o.i = a.i
              /\ Near(o.lon, a.lon, 2 * Tol) /\ Near(o.lat, a.lat, Tol)
              /\ Near(Wrap(o.hd - a.hd), 0, IF a.cur THEN 150 ELSE 5)
PointBad(o, lane) ==
  IF o.err # "" THEN LET A == Answers(lane, o.x, o.y) IN Chk(~A.ok, "position on the lane refused")
  ELSE LET A == Answers(lane, o.x, o.y) IN
       IF ~A.ok THEN {} ELSE
         Chk(\E a \in A.ans : Fits(o, a), "coordinates")
         \cup Chk(Near(o.bx, o.x, 2) /\ Near(o.by, o.y, 2), "round trip")
         \cup Chk(o.plon = o.lon /\ o.plat = o.lat /\ o.phd = o.hd, "lane names")
WorldBad(o, lane) ==
  LET w == World(lane[o.i], o.lon, o.lat) IN
  Chk(Near(w[1], o.x, Tol) /\ Near(w[2], o.y, Tol), "position")
  \cup Chk(Near(o.wd, o.w, 0), "width")

Holds(g, a, slack) ==
  LET v == IF g.v = "lon" THEN a.lon ELSE a.lat
      c == g.c
  IN IF g.op \in {">", ">="} THEN v >= c + slack ELSE v <= c - slack
GridPts(o) == { <<o.lo[1] + ((o.hi[1] - o.lo[1]) * i) \div o.n, o.lo[2] + ((o.hi[2] - o.lo[2]) * j) \div o.n>> : i \in 0..o.n, j \in 0..o.n }
BoxBad(o, lane) ==
  LET pts == IF o.lo = o.hi THEN {<<o.lo[1], o.lo[2]>>} ELSE GridPts(o)
      A == TLCEval([p \in pts |-> Answers(lane, p[1], p[2])])
      \* the set lies on piece i, and no other piece is near
      loc == TLCEval([i \in DOMAIN lane |-> { Local(lane[i], p[1], p[2]) : p \in pts }])
      on(i) == \A c \in loc[i] : c.lon >= o.slack - Back /\ c.lon < lane[i].len - o.slack
      off(j, i) == \/ \A c \in loc[j] : c.lon < -Back - o.slack
                   \/ \A c \in loc[j] : c.lon >= lane[j].len + o.slack
                   \/ \A c \in loc[j], b \in loc[i] : Abs(c.lat) > Abs(b.lat) + o.slack
      one == \E i \in DOMAIN lane : on(i) /\ \A j \in DOMAIN lane \ {i} : off(j, i)
      slack == IF o.lo = o.hi THEN -2 * Tol ELSE -o.slack
  IN IF o.err # "" THEN Chk(\E p \in pts : ~A[p].ok, "error") ELSE
     UNION { LET gs == o.gs[k]
                 sat(p, s) == \A a \in A[p].ans : \A m \in DOMAIN gs : Holds(gs[m], a, s)
                 may(p, s) == \E a \in A[p].ans : \A m \in DOMAIN gs : Holds(gs[m], a, s)
                 hit == k \in { o.hits[m] : m \in DOMAIN o.hits }
             IN Chk((\E p \in pts : A[p].ok /\ sat(p, 2 * Tol)) => hit, "missed guard")
                \* a set inside one piece is not widened beyond the positions in it
                \cup Chk(hit /\ (one \/ o.lo = o.hi) /\ (\A p \in pts : A[p].ok) /\ (Len(gs) = 1 \/ o.lo = o.hi) => \E p \in pts : may(p, slack), "spurious guard")
           : k \in DOMAIN o.gs }

Bad(o) ==
  LET lane == Lane(C.lanes[o.lane]) IN
  CASE o.k = "pt" -> PointBad(o, lane)
    [] o.k = "world" -> WorldBad(o, lane)
    [] o.k = "box" -> BoxBad(o, lane)

Init == cid \in 1..Len(Cases) /\ l = 1
Look ==
  /\ l <= Len(C.obs)
  /\ LET b == Bad(C.obs[l]) IN
       IF b = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> l, kind |-> C.obs[l].k, bad |-> SetToSeq(b)]))
  /\ l' = l + 1
  /\ UNCHANGED cid
Done == /\ l = Len(C.obs) + 1
        /\ PrintT("STAT " \o ToJson([cases |-> 1, observations |-> Len(C.obs)]))
        /\ l' = l + 1
        /\ UNCHANGED cid
Next == Look \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
