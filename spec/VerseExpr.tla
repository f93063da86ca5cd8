----------------------------- MODULE VerseExpr -----------------------------
(* Meaning of the decision-logic language: expressions over the sensed world,  *)
(* and the guarded candidate assignments / guarded assertions a decision       *)
(* function denotes (the `if` statements are nondeterministic alternatives).   *)
(* Programs are the JSON ASTs the harness renders into Python for the code.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(* A world: w.m[a] = discrete state (sequence), w.x[a] = continuous state of   *)
(* agent a.  `a` is the ego agent, `o` the agent bound by any/all/sum.         *)

RECURSIVE AE(_, _, _, _, _), BE(_, _, _, _, _)

(* h : table of the lane-change map, h[track][src mode][dst mode] = track, 0 = no entry *)
HVal(h, t, m, m2) == IF h = <<>> THEN 0 ELSE IF t = 0 THEN 0 ELSE h[t][m][m2]

(* Lane coordinates of agent e.w (e.c = 0 longitudinal, 1 lateral) on the track e.tw is on  *)
(* or, with e.hn > 0, on the track the map leads to from there.  In a sensed world the      *)
(* coordinates on all tracks stand behind an agent's own w.nv variables.                    *)
LcWho(e, a, o) == IF e.w = "e" THEN a ELSE o
LcTrack(e, h, w, a, o) ==
  LET g == IF e.tw = "e" THEN a ELSE o IN
  IF e.hn = 0 THEN w.m[g][e.t] ELSE HVal(h, w.m[g][e.t], w.m[g][e.i], e.hn)
LcIdx(e, h, w, a, o) == w.nv + 2 * (LcTrack(e, h, w, a, o) - 1) + 1 + e.c

SumOver(S, Op(_)) == FoldSet(LAMBDA o, acc : acc + Op(o), 0, S)

Others(w, a) == (DOMAIN w.m) \ {a}

AE(e, h, w, a, o) ==
  CASE e.k = "c"   -> e.n
    [] e.k = "v"   -> w.x[IF e.w = "e" THEN a ELSE o][e.i]
    [] e.k = "+"   -> AE(e.l, h, w, a, o) + AE(e.r, h, w, a, o)
    [] e.k = "-"   -> AE(e.l, h, w, a, o) - AE(e.r, h, w, a, o)
    [] e.k = "*"   -> e.n * AE(e.r, h, w, a, o)
    [] e.k = "lc"  -> IF LcTrack(e, h, w, a, o) = 0 THEN 0 ELSE w.x[LcWho(e, a, o)][LcIdx(e, h, w, a, o)]
    [] e.k = "sum" -> SumOver(Others(w, a), LAMBDA p : AE(e.e, h, w, a, p))

Cmp(op, l, r) ==
  CASE op = "<"  -> l < r
    [] op = "<=" -> l <= r
    [] op = ">"  -> l > r
    [] op = ">=" -> l >= r
    [] op = "==" -> l = r
    [] op = "!=" -> l # r

BE(e, h, w, a, o) ==
  CASE e.k = "T"    -> TRUE
    [] e.k = "F"    -> FALSE
    [] e.k = "cmp"  -> Cmp(e.op, AE(e.l, h, w, a, o), AE(e.r, h, w, a, o))
    [] e.k = "m"    -> (w.m[IF e.w = "e" THEN a ELSE o][e.i] = e.n)
    [] e.k = "nm"   -> (w.m[IF e.w = "e" THEN a ELSE o][e.i] # e.n)
    [] e.k = "mm"   -> (w.m[a][e.i] = w.m[o][e.i])
    [] e.k = "hx"   -> HVal(h, w.m[a][e.t], w.m[a][e.i], e.n) # 0
    [] e.k = "and"  -> \A j \in 1..Len(e.es) : BE(e.es[j], h, w, a, o)
    [] e.k = "or"   -> \E j \in 1..Len(e.es) : BE(e.es[j], h, w, a, o)
    [] e.k = "not"  -> ~BE(e.e, h, w, a, o)
    [] e.k = "any"  -> \E p \in Others(w, a) : BE(e.e, h, w, a, p)
    [] e.k = "all"  -> \A p \in Others(w, a) : BE(e.e, h, w, a, p)

(* ------------------------------------------------------------------------- *)
(* What a decision function denotes.  A scope maps every variable key to a     *)
(* set of candidates [c : set of <<test, polarity>>, v : value].               *)
(*   - a variable starts with the alternative "its ego value" (Self);          *)
(*   - an assignment replaces all candidates of its variable in its scope;     *)
(*   - `if` runs both branches on copies of the scope and ADDS what they       *)
(*     changed, guarded by the test (its negation), to what was there before:  *)
(*     an `if` never removes an earlier alternative.                           *)
(* ------------------------------------------------------------------------- *)
Keys(nd, nv) == ({"d"} \X (1..nd)) \cup ({"c"} \X (1..nv))
KeyOf(s) == <<IF s.k = "setd" THEN "d" ELSE "c", s.i>>

Guarded(cs, test, pol) == { [c |-> x.c \cup {<<test, pol>>}, v |-> x.v] : x \in cs }

MergeIf(S, T, F, test) ==
  TLCEval([k \in DOMAIN S |->
     IF T[k] = F[k] /\ T[k] = S[k] THEN S[k]
     ELSE S[k] \cup Guarded(T[k] \ S[k], test, TRUE) \cup Guarded(F[k] \ S[k], test, FALSE)])

RECURSIVE Block(_, _)
Block(stmts, S) ==
  IF stmts = <<>> THEN S
  ELSE LET s == Head(stmts)
           S2 == TLCEval(CASE s.k \in {"setd", "setc"} -> [S EXCEPT ![KeyOf(s)] = {[c |-> {}, v |-> s.v]}]
                   [] s.k = "if" -> MergeIf(S, TLCEval(Block(s.t, S)), TLCEval(Block(s.f, S)), s.c)
                   [] OTHER -> S)
       IN Block(Tail(stmts), S2)

(* The guarded assignments of the program: unconditional ones denote no transition. *)
Self(k) == [c |-> {}, v |-> IF k[1] = "d" THEN [k |-> "self"] ELSE [k |-> "v", w |-> "e", i |-> k[2]]]
Candidates(prog, nd, nv) ==
  LET R == TLCEval(Block(prog, TLCEval([k \in Keys(nd, nv) |-> {Self(k)}])))
  IN  [k \in DOMAIN R |-> { x \in R[k] : x.c # {} }]

RECURSIVE Asserts(_, _)
Asserts(stmts, pre) ==
  IF stmts = <<>> THEN {}
  ELSE LET s == Head(stmts)
           A == CASE s.k = "assert" -> {[pre |-> pre, c |-> s.c, l |-> s.lab]}
                  [] s.k = "if" -> Asserts(s.t, pre \cup {<<s.c, TRUE>>}) \cup Asserts(s.f, pre \cup {<<s.c, FALSE>>})
                  [] OTHER -> {}
       IN A \cup Asserts(Tail(stmts), pre)

Holds(tests, h, w, a) == \A t \in tests : BE(t[1], h, w, a, 0) = t[2]

DVal(v, h, w, a) == IF v.k = "const" THEN v.n ELSE HVal(h, w.m[a][v.t], w.m[a][v.i], v.n)
KVal(k, v, h, w, a) == IF k[1] = "d" THEN DVal(v, h, w, a) ELSE AE(v, h, w, a, 0)

(* ------------------------------------------------------------------------- *)
(* Direct sequential (Python) meaning, used by direct simulation.             *)
(* Result: [m, x, fail] ; fail = label of the first failing assertion (0 none) *)
(* ------------------------------------------------------------------------- *)
RECURSIVE Exec(_, _, _, _, _)
Exec(stmts, h, w, a, st) ==
  IF stmts = <<>> \/ st.fail # 0 THEN st
  ELSE LET s == Head(stmts)
           st2 == CASE s.k = "setd" -> [st EXCEPT !.m[s.i] = DVal(s.v, h, w, a)]
                    [] s.k = "setc" -> [st EXCEPT !.x[s.i] = AE(s.v, h, w, a, 0)]
                    [] s.k = "if" -> IF BE(s.c, h, w, a, 0) THEN Exec(s.t, h, w, a, st) ELSE Exec(s.f, h, w, a, st)
                    [] s.k = "assert" -> IF BE(s.c, h, w, a, 0) THEN st ELSE [st EXCEPT !.fail = s.lab]
       IN Exec(Tail(stmts), h, w, a, st2)
=============================================================================
