------------------------------- MODULE Agents -------------------------------
(* The agents that come with the library: what a trajectory of each of them is, *)
(* as a relation between successive rows. Times are in 10^-6, values in 10^-6   *)
(* (velocities v of the lane agents also in 10^-3 as C.v), dt in 10^-3.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLES cid, l
vars == <<cid, l>>
C == Cases[cid]
R == C.rows

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Chk(ok, name) == IF ok THEN {} ELSE {name}
Min2(a, b) == IF a < b THEN a ELSE b
RDiv(a, b) == IF a >= 0 THEN (a + (b \div 2)) \div b ELSE -((-a + (b \div 2)) \div b)
\* micro * milli / 1000, for micro up to 2 * 10^8 and milli up to 1000
Mul(x, m) == RDiv(RDiv(x, 100) * m, 10)

(* The whole trajectory: N = ceil(T / dt) steps after the initial row, each dt later. *)
Steps == (C.T + C.dt - 1) \div C.dt
Shape ==
  Chk(Len(R) = Steps + 1, "number of rows")
  \cup Chk(\A k \in DOMAIN R : Near(R[k][1], (k - 1) * C.dt * 1000, 1), "times")
  \cup Chk(Len(R) > 0 /\ SubSeq(R[1], 2, Len(R[1])) = C.init, "initial row")
  \cup Chk(C.kept, "arguments changed")
  \* run in two parts, the second from where the first ended
  \cup Chk(C.parts = <<>> \/ (Len(C.parts) = Len(R) /\ \A k \in DOMAIN R : \A j \in DOMAIN R[k] : Near(C.parts[k][j], R[k][j], 5)), "in two parts")

Same(k, j) == Near(R[k + 1][j], R[k][j], 2)
Moves(k, j, by, tol) == Near(R[k + 1][j] - R[k][j], by, tol)
Timer(k, j) == Moves(k, j, C.dt * 1000, 3)

(* along the lane C.dir = <<dx, dy>>, with speed before and after the step *)
Drive(k, v0, v1) ==
  LET run == (Mul(v0, C.dt) + Mul(v1, C.dt)) \div 2 IN
  Moves(k, 2, C.dir[1] * run, 400) /\ Moves(k, 3, C.dir[2] * run, 400)

(* e^x for |x| <= 0.1, in 10^-6 *)
Exp(x) == 1000000 + x + RDiv(RDiv(x * (x \div 10), 100000), 2) + RDiv(RDiv(RDiv(x * (x \div 10), 100000) * (x \div 10), 100000), 6)

Row(k) ==
  CASE C.kind = "ball" -> Chk(Moves(k, 2, Mul(R[k][4], C.dt), 30) /\ Moves(k, 3, Mul(R[k][5], C.dt), 30) /\ Same(k, 4) /\ Same(k, 5), "motion")
    [] C.kind = "line" -> Chk(Moves(k, 2, Mul(R[k][3], C.dt), 30) /\ Same(k, 3), "motion")
    [] C.kind = "robot" -> Chk(Timer(k, 2), "motion")
    [] C.kind = "sign" -> Chk(\A j \in 2..Len(R[k]) : R[k + 1][j] = R[k][j], "motion")
    [] C.kind = "thermo" ->
         Chk(Timer(k, 3) /\ Timer(k, 4), "timers")
         \cup Chk(Near(R[k + 1][2], R[k][2] + RDiv(RDiv(R[k][2], 10000) * (Exp(C.rate * C.dt * 100) - 1000000), 100), 1000), "temperature")
    [] C.kind = "timed" -> Chk(Timer(k, C.tv) /\ (C.tv2 = 0 \/ Timer(k, C.tv2)), "timers")
    \* a car on the middle line of a straight lane: keeps to it, and only its speed changes
    [] C.kind = "car" ->
         LET v0 == R[k][5]
             a == CASE C.mode = "Brake" -> -Min2(C.accel, v0) [] C.mode = "Accel" -> Min2(C.accel, C.speed - v0) [] OTHER -> 0
             v1 == IF v0 + Mul(a, C.dt) < 0 THEN 0 ELSE v0 + Mul(a, C.dt)
         IN Chk(Near(R[k + 1][5], v1, 100) /\ R[k + 1][5] >= 0, "speed")
            \cup Chk(Drive(k, v0, v1), "motion")
            \cup Chk(Near(R[k + 1][4], R[k][4], 20), "heading")
            \cup (IF Len(R[k]) = 6 THEN Chk(Timer(k, 6), "timers") ELSE {})
    \* a car beside the line it heads for approaches it without going past it
    [] C.kind = "follow" ->
         LET goal == C.goal
             lat(q) == RDiv((R[q][3] - C.oy) * C.dir[1], 1) - RDiv((R[q][2] - C.ox) * C.dir[2], 1)
             d0 == lat(k) - goal
             d1 == lat(k + 1) - goal
         IN Chk(Abs(d1) <= Abs(d0) + 2000, "away from the line")
            \cup Chk(IF d0 > 2000 THEN d1 > -20000 ELSE IF d0 < -2000 THEN d1 < 20000 ELSE TRUE, "past the line")
            \cup Chk((k * C.dt) < 20000 \/ Abs(d1) <= 100000, "line not reached")
            \cup Chk(Same(k, 5), "speed")

Init == cid \in 1..Len(Cases) /\ l = 0
Look ==
  /\ l < Len(R)
  /\ LET b == IF l = 0 THEN Shape ELSE Row(l) IN
       IF b = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([case |-> C.id, node |-> l, kind |-> C.agent, bad |-> SetToSeq(b)]))
  /\ l' = l + 1
  /\ UNCHANGED cid
Done == /\ l = Len(R)
        /\ PrintT("STAT " \o ToJson([cases |-> 1, rows |-> Len(R)]))
        /\ l' = l + 1
        /\ UNCHANGED cid
Next == Look \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
