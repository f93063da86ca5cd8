------------------------------- MODULE Sched -------------------------------
(* The exploration loop of both engines when nodes are worked on by remote      *)
(* tasks: a queue of nodes, a bounded number of running tasks that finish in any *)
(* order, ids handed out when results arrive.  The tree that is explored is an   *)
(* arbitrary one: nodes 1..n, par[i] < i the parent of node i.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxNodes, MaxAhead

VARIABLES par,      \* the tree
          limit,    \* nodes that are not expanded (height or horizon reached)
          ahead,    \* how many tasks may run before the loop waits
          queue,    \* nodes waiting, in order
          running,  \* nodes a task works on
          nodes,    \* nodes by id: nodes[id + 1]
          kids,     \* children recorded for finished nodes
          done
vars == <<par, limit, ahead, queue, running, nodes, kids, done>>

Range(s) == { s[i] : i \in DOMAIN s }
KidsOf(i) == { j \in DOMAIN par : par[j] = i }
Trees == UNION { { p \in [1..n -> 0..(n - 1)] : p[1] = 0 /\ \A i \in 2..n : p[i] >= 1 /\ p[i] < i } : n \in 1..MaxNodes }
Leaves(p) == { i \in DOMAIN p : \A j \in DOMAIN p : p[j] # i }

Init ==
  /\ par \in Trees
  /\ limit \in SUBSET Leaves(par)
  /\ ahead \in 1..MaxAhead
  /\ queue = <<1>> /\ nodes = <<1>>
  /\ running = {} /\ kids = [i \in DOMAIN par |-> {}] /\ done = FALSE

(* A result arrives: the first child goes before those that were already postponed.   *)
Arrive(i, order) ==
  /\ nodes' = nodes \o order
  /\ kids' = [kids EXCEPT ![i] = Range(order)]
Orders(S) == { s \in [1..Cardinality(S) -> S] : Range(s) = S }
(* The queue is kept stably sorted: first children before later ones.                 *)
Enqueue(q, order) == IF order = <<>> THEN q
                     ELSE LET first == order[1] IN
                          \* q = first children (F) then others; firstness is remembered by position of par
                          LET isFirst(x) == x = 1 \/ \E k \in DOMAIN nodes' : nodes'[k] = x /\ (k = 1 \/ par[nodes'[k - 1]] # par[x])
                          IN SelectSeq(q, isFirst) \o <<first>> \o SelectSeq(q, LAMBDA x : ~isFirst(x)) \o Tail(order)

Pop == queue # <<>>
Skip == /\ Pop /\ Head(queue) \in limit /\ Cardinality(running) < ahead
        /\ queue' = Tail(queue)
        /\ UNCHANGED <<par, limit, ahead, running, nodes, kids, done>>
(* A node whose results are known from an earlier run may be worked on in place.       *)
Local == /\ Pop /\ Head(queue) \notin limit /\ Cardinality(running) < ahead
         /\ \E o \in Orders(KidsOf(Head(queue))) :
              /\ Arrive(Head(queue), o)
              /\ queue' = Enqueue(Tail(queue), o)
         /\ UNCHANGED <<par, limit, ahead, running, done>>
Submit == /\ Pop /\ Head(queue) \notin limit /\ Cardinality(running) < ahead
          /\ running' = running \cup {Head(queue)}
          /\ queue' = Tail(queue)
          /\ UNCHANGED <<par, limit, ahead, nodes, kids, done>>
(* The loop waits when enough tasks run or nothing is left to start.                    *)
Finish == /\ running # {} /\ (Cardinality(running) >= ahead \/ queue = <<>>)
          /\ \E i \in running : \E o \in Orders(KidsOf(i)) :
               /\ Arrive(i, o)
               /\ queue' = Enqueue(queue, o)
               /\ running' = running \ {i}
          /\ UNCHANGED <<par, limit, ahead, done>>
Stop == /\ queue = <<>> /\ running = {} /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED <<par, limit, ahead, queue, running, nodes, kids>>
Next == Skip \/ Local \/ Submit \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* -------------------------------- properties -------------------------------- *)
Once == Cardinality(Range(nodes)) = Len(nodes)
Apart == /\ running \cap Range(queue) = {}
         /\ Cardinality(Range(queue)) = Len(queue)
         /\ \A i \in running \cup Range(queue) : kids[i] = {} /\ i \in Range(nodes)
Parents == \A i \in Range(nodes) : i = 1 \/ i \in kids[par[i]]
Bound == Cardinality(running) <= ahead
Whole == done => /\ Range(nodes) = DOMAIN par
                 /\ \A i \in DOMAIN par : kids[i] = KidsOf(i)
Inv == Once /\ Apart /\ Parents /\ Bound /\ Whole
Ends == <>done
=============================================================================
