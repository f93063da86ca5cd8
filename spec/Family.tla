------------------------------- MODULE Family -------------------------------
(* A small family of scenarios, enumerated completely: one or two agents with   *)
(* one variable and two modes, programs of one or two guarded assignments or    *)
(* assertions, all velocities out of {-8, 0, 8}, points and boxes.              *)
EXTENDS VerseVer, IOUtils

EnvNat(name, d) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE d
Shard == EnvNat("SHARD", 0)      \* which residue class of the family is looked at
Shards == EnvNat("SHARDS", 1)
Fam == IF "FAMILY" \in DOMAIN IOEnv THEN IOEnv.FAMILY ELSE "one"

X == [k |-> "v", w |-> "e", i |-> 1]
O == [k |-> "v", w |-> "o", i |-> 1]
K(n) == [k |-> "c", n |-> n]
CmpE(op, l, r) == [k |-> "cmp", op |-> op, l |-> l, r |-> r]
In(n) == [k |-> "m", w |-> "e", i |-> 1, n |-> n]
AndE(s) == [k |-> "and", es |-> s]
AnyE(e) == [k |-> "any", e |-> e]
AllE(e) == [k |-> "all", e |-> e]
IfS(c, t, f) == [k |-> "if", c |-> c, t |-> t, f |-> f]
SetD(n) == [k |-> "setd", i |-> 1, v |-> [k |-> "const", n |-> n]]
SetC(e) == [k |-> "setc", i |-> 1, v |-> e]
AssertS(c, l) == [k |-> "assert", c |-> c, lab |-> l]

Tests == << CmpE("<", X, K(4)), CmpE(">=", X, K(4)), CmpE("<", X, K(12)), CmpE(">=", X, K(12)), CmpE(">", X, K(20)) >>
Tests2 == << AnyE(CmpE("<", [k |-> "-", l |-> O, r |-> X], K(4))), AllE(CmpE(">=", O, K(12))),
             AnyE(AndE(<<[k |-> "m", w |-> "o", i |-> 1, n |-> 2], CmpE(">=", O, X)>>)) >>
Acts == << <<SetD(2)>>, <<SetD(1)>>, <<SetC(K(0))>>, <<SetC([k |-> "+", l |-> X, r |-> K(8)])>>,
           <<SetC([k |-> "*", n |-> -1, r |-> X]), SetD(2)>> >>

Guards(two) ==
  LET T == IF two THEN Tests2 \o <<Tests[2], Tests[3]>> ELSE Tests
  IN T \o [i \in 1..Len(T) |-> AndE(<<In(1), T[i]>>)]

(* statements: guarded assignments, with or without an else, and assertions *)
Stmts(two, n) ==
  LET G == Guards(two)
      ga == [i \in 1..(Len(G) * Len(Acts)) |-> IfS(G[((i - 1) \div Len(Acts)) + 1], Acts[((i - 1) % Len(Acts)) + 1], <<>>)]
      ge == [i \in 1..Len(G) |-> IfS(G[i], Acts[1], Acts[3])]
      gs == << AssertS(CmpE("<", X, K(20)), n), IfS(In(2), <<AssertS(CmpE("<", X, K(12)), n)>>, <<>>) >>
      gt == IF two THEN << AssertS(AllE(CmpE("<", [k |-> "-", l |-> O, r |-> X], K(12))), n) >> ELSE <<>>
  IN ga \o ge \o gs \o gt

Vels == << <<8>>, <<0>>, <<-8>> >>
Boxes == << <<0, 0>>, <<0, 16>>, <<8, 16>> >>

Agent(prog, v1, v2, b, m) ==
  [nv |-> 1, nd |-> 1, vel |-> <<Vels[v1], Vels[v2]>>, cpl |-> <<0>>, wlo |-> <<0>>, whi |-> <<0>>, pts |-> 0, dl |-> IF prog = <<>> THEN 0 ELSE 1, tr |-> 0, am |-> 0,
   init |-> <<Boxes[b][1]>>, hi |-> <<Boxes[b][2]>>, mode |-> <<m>>, prog |-> prog]
Scen(ags, n) == [ag |-> ags, N |-> n, H |-> 4, h |-> <<>>, lanes |-> <<>>, uc |-> 0, seg |-> 1, part |-> 0, pinit |-> 0, pdims |-> <<>>, off |-> 0, reach |-> -1, direct |-> 0]

S1 == Stmts(FALSE, 1)
S2 == Stmts(FALSE, 2)
T1 == Stmts(TRUE, 1)
T2 == Stmts(TRUE, 2)

(* the i-th member, i counted from 0: digits of i in a mixed radix *)
SizeOne == Len(S1) * 3 * 3 * 3
One(i) ==
  LET p == i % Len(S1)
      r == i \div Len(S1)
  IN Scen(<<Agent(<<S1[p + 1]>>, (r % 3) + 1, ((r \div 3) % 3) + 1, ((r \div 9) % 3) + 1, 1)>>, 4)
SizePair == Len(S1) * Len(S2) * 27
Pair(i) ==
  LET p == i % Len(S1)
      q == (i \div Len(S1)) % Len(S2)
      r == i \div (Len(S1) * Len(S2))
  IN Scen(<<Agent(<<S1[p + 1], S2[q + 1]>>, (r % 3) + 1, ((r \div 3) % 3) + 1, ((r \div 9) % 3) + 1, 1)>>, 4)
SizeTwo == Len(T1) * (Len(T2) + 1) * 81
Two(i) ==
  LET p == i % Len(T1)
      q == (i \div Len(T1)) % (Len(T2) + 1)
      r == i \div (Len(T1) * (Len(T2) + 1))
  IN Scen(<<Agent(<<T1[p + 1]>>, (r % 3) + 1, ((r \div 3) % 3) + 1, ((r \div 9) % 3) + 1, 1),
            Agent(IF q = 0 THEN <<>> ELSE <<T2[q]>>, 1, 3, ((r \div 27) % 3) + 1, 1)>>, 3)

Size == CASE Fam = "one" -> SizeOne [] Fam = "pair" -> SizePair [] Fam = "two" -> SizeTwo
Member(i) == CASE Fam = "one" -> One(i) [] Fam = "pair" -> Pair(i) [] Fam = "two" -> Two(i)
(* Shards is prime to all digits' radices, so that a shard spreads over all of them. *)
Index == { i \in 0..(Size - 1) : i % Shards = Shard % Shards }
=============================================================================
