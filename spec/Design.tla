-------------------------------- MODULE Design --------------------------------
(* The generated design: a schedule executed period after period by hardware. *)
(*                                                                            *)
(* A schedule d is a record                                                   *)
(*   T      its period                                                        *)
(*   ops    sequence of operations [k, v, w, j, s, lat]: kind, parameters,    *)
(*          start time, latency of each output                                *)
(*   edges  sequence of [u, p, v, q, laps]: output p of u goes to input q of  *)
(*          v, that many periods later                                        *)
(* Values are pairs of integers modulo M, a power of two: all words are whole *)
(* numbers and wrap, so every operation is exact in that ring and the word    *)
(* lengths inside an element play no role.  Everything is zero at first.      *)
EXTENDS Common
M == 4096
Ring(z) == <<z[1] % M, z[2] % M>>
Plus(a, b) == Ring(<<a[1] + b[1], a[2] + b[2]>>)
Minus(a, b) == Ring(<<a[1] - b[1], a[2] - b[2]>>)
Times(a, b) == Ring(<<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>)
ByJ(a) == Ring(<<-a[2], a[1]>>)
Zero == <<0, 0>>

(* The outputs of operation o for its inputs x. *)
Result(o, x) ==
  LET b == IF o.j = 1 THEN ByJ(x[2]) ELSE x[2]
  IN CASE o.k = "add" -> <<Plus(x[1], b)>>
       [] o.k \in {"addsub", "shiftaddsub"} -> <<IF o.v = 1 THEN Plus(x[1], b) ELSE Minus(x[1], b)>>
       [] o.k = "cmul" -> <<Times(o.c, x[1])>>
       [] o.k = "mads" -> LET t == Times(x[2], x[3])  a == IF o.w = 1 THEN x[1] ELSE Zero
                          IN <<IF o.v = 1 THEN Plus(a, t) ELSE Minus(a, t)>>
       [] o.k = "sym2p" -> LET t == Times(o.c, Minus(x[2], x[1]))
                           IN <<Plus(x[2], t), Plus(x[1], t)>>
       [] OTHER -> <<>>
Ports(o) == CASE o.k = "sym2p" -> 2 [] o.k \in {"out", "sink"} -> 0 [] OTHER -> 1

Into(d, v) == {e \in DOMAIN d.edges : d.edges[e].v = v}
Edge(d, v, q) == d.edges[CHOOSE e \in DOMAIN d.edges : d.edges[e].v = v /\ d.edges[e].q = q]
Arity(d, v) == Cardinality(Into(d, v))
(* How long a value waits between its computation and its use. *)
Life(d, e) == d.ops[e.v].s + e.laps * d.T - d.ops[e.u].s - d.ops[e.u].lat[e.p]

(* What the operations compute in period n, H being the periods before, X[n]  *)
(* the inputs; order lists sources within a period first.                     *)
Fetch(H, now, e) ==
  LET n == Len(H) + 1 - e.laps
  IN IF e.laps = 0 THEN now[e.u][e.p] ELSE IF n < 1 THEN Zero ELSE H[n][e.u][e.p]
Period(d, order, H, x) ==
  FoldLeft(LAMBDA now, v :
     LET o == d.ops[v]
     IN [now EXCEPT ![v] =
           IF o.k = "in" THEN <<Ring(x[v])>>
           ELSE IF o.k = "out" THEN <<Fetch(H, now, Edge(d, v, 1))>>
           ELSE Result(o, [q \in 1..Arity(d, v) |-> Fetch(H, now, Edge(d, v, q))])],
     [v \in DOMAIN d.ops |-> <<>>], order)
(* X: per period, a value for every operation (used for inputs). *)
Computed(d, order, X) ==
  FoldLeft(LAMBDA H, x : Append(H, Period(d, order, H, x)), <<>>, X)
RECURSIVE Ordered(_, _, _)
Ordered(d, order, todo) ==
  IF todo = {} THEN order
  ELSE LET R == {v \in todo : \A e \in Into(d, v) : d.edges[e].laps > 0 \/ d.edges[e].u \notin todo}
       IN IF R = {} THEN <<>> ELSE Ordered(d, order \o SetToSeq(R), todo \ R)
Order(d) == Ordered(d, <<>>, DOMAIN d.ops)
=============================================================================
