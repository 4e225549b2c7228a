-------------------------------- MODULE Lti --------------------------------
(* Linear time-invariant graphs: impulse responses, state equations, rational *)
(* transfer functions and norms, in the arithmetic of Dataflow.               *)
EXTENDS Dataflow

Zeroed(g) == [g EXCEPT !.nodes = [i \in DOMAIN g.nodes |->
                IF IsDelay(g.nodes[i]) THEN [g.nodes[i] EXCEPT !.v = 0] ELSE g.nodes[i]]]
Vec(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
Impulse(n, k, len) == [t \in 1..len |-> Vec(n, IF t = 1 THEN k ELSE 0)]
DelaySeq(g) == SelectSeq([i \in 1..Len(g.nodes) |-> i], LAMBDA i : IsDelay(g.nodes[i]))

(* Values with e added to what output port p of node i delivers. *)
Disturbed(g, st, x, i, p, e) ==
  FoldLeft(LAMBDA vals, j :
     LET nd == g.nodes[j]
         v == CASE nd.k = "in" -> <<x[InIndex(g, j)]>>
                [] nd.k = "t" -> vals[j]
                [] nd.k \in {"out", "sink", "gone"} -> vals[j]
                [] OTHER -> Fun(nd, Arg(g, vals, j), g.m)
     IN [vals EXCEPT ![j] = IF i = j /\ nd.k # "t" THEN [v EXCEPT ![p] = Add(@, e, g.m)] ELSE v],
     [j \in DOMAIN g.nodes |-> IF IsDelay(g.nodes[j])
                               THEN <<IF i = j THEN Add(st[j], e, g.m) ELSE st[j]>> ELSE <<>>],
     g.order)
(* What every node shows at every time for an impulse at input k, and what    *)
(* the outputs show for an impulse at port p of node i, from zero state.      *)
RECURSIVE Run(_, _, _, _)
Run(g, st, X, acc) ==
  IF X = <<>> THEN acc
  ELSE LET vals == Values(g, st, X[1])
       IN Run(g, NextState(g, vals), Tail(X), Append(acc, Observed(g, vals)))
NodeResponse(g, k, len) ==
  LET z == Zeroed(g) IN Run(z, InitState(z), Impulse(Len(g.ins), k, len), <<>>)
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(g, st, i, p, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET vals == Disturbed(g, st, Vec(Len(g.ins), 0), i, p, IF acc = <<>> THEN 1 ELSE 0)
       IN RunFrom(g, NextState(g, vals), i, p, n - 1, Append(acc, Outs(g, vals)))
PortResponse(g, i, p, len) == LET z == Zeroed(g) IN RunFrom(z, InitState(z), i, p, len, <<>>)
OutResponse(g, k, len) == LET z == Zeroed(g) IN Response(z, Impulse(Len(g.ins), k, len))

(* State equations: extraction by unit states and inputs, and their behaviour. *)
StateSpace(g) ==
  LET D == DelaySeq(g)
      n == Len(D)  m == Len(g.ins)
      st(k) == [i \in DOMAIN g.nodes |-> IF k > 0 /\ i = D[k] THEN 1 ELSE 0]
      fromX == [k \in 1..n |-> Values(g, st(k), Vec(m, 0))]
      fromU == [k \in 1..m |-> Values(g, st(0), Vec(m, k))]
  IN [A |-> [i \in 1..n |-> [k \in 1..n |-> NextState(g, fromX[k])[D[i]]]],
      B |-> [i \in 1..n |-> [k \in 1..m |-> NextState(g, fromU[k])[D[i]]]],
      C |-> [o \in DOMAIN g.outs |-> [k \in 1..n |-> Outs(g, fromX[k])[o]]],
      D |-> [o \in DOMAIN g.outs |-> [k \in 1..m |-> Outs(g, fromU[k])[o]]]]
Dot(a, b, m) == LET r[i \in 0..Len(b)] == IF i = 0 THEN 0 ELSE Add(r[i - 1], Mul(a[i], b[i], m), m)
                IN r[Len(b)]
MatVec(M, x, m) == [i \in DOMAIN M |-> Dot(M[i], x, m)]
VAdd(a, b, m) == [i \in DOMAIN a |-> Add(a[i], b[i], m)]
(* Outputs of the state equations for the inputs X, from zero state. *)
Iterate(ss, X, m) ==
  FoldLeft(LAMBDA acc, u :
     [x |-> VAdd(MatVec(ss.A, acc.x, m), MatVec(ss.B, u, m), m),
      y |-> Append(acc.y, VAdd(MatVec(ss.C, acc.x, m), MatVec(ss.D, u, m), m))],
     [x |-> [i \in DOMAIN ss.A |-> 0], y |-> <<>>], X).y
Shape(ss, n, r, c) ==
  /\ Len(ss.A) = n /\ \A i \in DOMAIN ss.A : Len(ss.A[i]) = n
  /\ Len(ss.B) = n /\ \A i \in DOMAIN ss.B : Len(ss.B[i]) = c
  /\ Len(ss.C) = r /\ \A i \in DOMAIN ss.C : Len(ss.C[i]) = n
  /\ Len(ss.D) = r /\ \A i \in DOMAIN ss.D : Len(ss.D[i]) = c

(* num and den are coefficients of z^0, z^-1, ...; h an impulse response of a  *)
(* system of order n: den * h = num.  Both sides satisfy a recurrence of order *)
(* n, so agreement on 2n + 2 terms is agreement.                              *)
Coef(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0
Conv(a, h, t, m) ==   \* coefficient of z^-(t-1)
  LET r[i \in 0..t] == IF i = 0 THEN 0 ELSE Add(r[i - 1], Mul(Coef(a, i), Coef(h, t + 1 - i), m), m)
  IN r[t]
Rational(num, den, h, m) ==
  /\ \E i \in DOMAIN den : den[i] # 0
  /\ \A t \in 1..Len(h) : Conv(den, h, t, m) = Coef(num, t)
(* The same up to poles and zeros at the origin (a power of z). *)
RationalUpToDelay(num, den, h, m) ==
  /\ \E i \in DOMAIN den : den[i] # 0
  /\ \E s \in -Len(h)..Len(h) : \A t \in 1..Len(h) : Conv(den, h, t, m) = Coef(num, t - s)

(* Convolution of an input sequence with impulse responses (by input). *)
Convolved(hs, X, o, m) ==
  [t \in 1..Len(X) |->
     LET r[k \in 0..Len(hs)] ==
           IF k = 0 THEN 0
           ELSE Add(r[k - 1], Conv([s \in 1..t |-> X[s][k]], [s \in 1..Len(X) |-> hs[k][s][o]], t, m), m)
     IN r[Len(hs)]]
=============================================================================
