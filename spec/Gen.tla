--------------------------------- MODULE Gen ---------------------------------
(* Signal generators: a generator is an expression whose value at every time  *)
(* is defined here.  Values are elements of Z_P (dyadic complex numbers are   *)
(* mapped there exactly; Z_P has a square root of -1).                        *)
(*   e: sequence of nodes, operands before their users; the last one counts.  *)
(*   node: k kind, a, b integers, vs values, x, y operand positions.          *)
EXTENDS Common
P == 40961

RECURSIVE PowM(_, _)
PowM(b, n) == IF n = 0 THEN 1
              ELSE LET h == PowM((b * b) % P, n \div 2)
                   IN IF n % 2 = 1 THEN (h * b) % P ELSE h
Recip(b) == PowM(b, P - 2)

Undef == -1            \* division by zero somewhere
Op2(k, u, v) ==
  IF u = Undef \/ v = Undef THEN Undef
  ELSE CASE k = "add" -> (u + v) % P
         [] k = "sub" -> (u - v) % P
         [] k = "mul" -> (u * v) % P
         [] k = "div" -> IF v = 0 THEN Undef ELSE (u * Recip(v)) % P

(* Value of node i of e at time t. *)
RECURSIVE At(_, _, _)
At(e, i, t) ==
  LET n == e[i] IN
  CASE n.k = "impulse" -> IF t = n.a THEN 1 ELSE 0
    [] n.k = "step" -> IF t >= n.a THEN 1 ELSE 0
    [] n.k = "const" -> n.vs[1]
    [] n.k = "pad" -> IF t >= 0 /\ t < Len(n.vs) THEN n.vs[t + 1] ELSE 0
       \* a: frequency, b: phase in quarters of a turn
    [] n.k = "sin" -> <<0, 1, 0, P - 1>>[((n.a * t + n.b) % 4) + 1]
    [] n.k = "delay" -> At(e, n.x, t - n.a)
    [] n.k = "up" -> IF (t - n.b) % n.a = 0 THEN At(e, n.x, (t - n.b) \div n.a) ELSE 0
    [] n.k = "down" -> At(e, n.x, t * n.a + n.b)
    [] OTHER -> Op2(n.k, At(e, n.x, t), At(e, n.y, t))
Value(e, t) == At(e, Len(e), t)

(* Sines of multiples of a twelfth of half a turn, in millionths. *)
Sines == <<0, 258819, 500000, 707107, 866025, 965926, 1000000, 965926, 866025, 707107,
           500000, 258819>>
Sine(a, b, t) == LET m == (a * t + b) % 24
                 IN IF m < 12 THEN Sines[m + 1] ELSE -Sines[m - 11]
=============================================================================
