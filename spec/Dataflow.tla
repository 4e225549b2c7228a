------------------------------ MODULE Dataflow -------------------------------
(* The synchronous dataflow machine: what a signal flow graph computes.       *)
(*                                                                            *)
(* A graph g is a record                                                      *)
(*   nodes  sequence of nodes [k, v, w, j, so, sh, src]                       *)
(*            k kind, v/w parameters, j multiply second operand by j,         *)
(*            so output right shift, sh operand right shift,                  *)
(*            src sequence of <<node, port>> feeding the inputs (1-based)     *)
(*   order  a witness of a topological order of the nodes                     *)
(*   ins, outs  the input and output nodes in order                           *)
(*   m      0: exact integers; p prime: the field Z_p, into which dyadic      *)
(*          (complex) numbers are mapped homomorphically (j |-> J)            *)
EXTENDS Common

P == 40961            \* prime, = 1 mod 8192: has sqrt(-1), 1/2, roots of unity
Half == 20481         \* 2 * Half = 1 mod P
J == 14541            \* J * J = -1 mod P

RECURSIVE PowM(_, _)
PowM(b, n) == IF n = 0 THEN 1
              ELSE LET h == PowM(b, n \div 2)
                       q == (h * h) % P
                   IN IF n % 2 = 0 THEN q ELSE (q * b) % P
InvM(x) == PowM(x, P - 2)

(* Square roots in Z_P (P - 1 = 5 * 2^13), by Tonelli and Shanks; 0 if none. *)
Nonresidue == 3
RECURSIVE Exponent2(_)
Exponent2(t) == IF t = 1 THEN 0 ELSE 1 + Exponent2((t * t) % P)
RECURSIVE TS(_, _, _, _)
TS(r, t, c, mm) ==
  IF t = 1 THEN r
  ELSE LET i == Exponent2(t)
           b == PowM(c, 2^(mm - i - 1))
           b2 == (b * b) % P
       IN TS((r * b) % P, (t * b2) % P, b2, i)
SqrtM(a) == IF a = 0 \/ PowM(a, (P - 1) \div 2) # 1 THEN 0
            ELSE TS(PowM(a, 3), PowM(a, 5), PowM(Nonresidue, 5), 13)

ASSUME (J * J) % P = P - 1 /\ (2 * Half) % P = 1
ASSUME PowM(Nonresidue, (P - 1) \div 2) = P - 1

N(x, m) == IF m = 0 THEN x ELSE x % m
Mul(a, b, m) == N(a * b, m)
Add(a, b, m) == N(a + b, m)
Sub(a, b, m) == N(a - b, m)
Neg(a, m) == N(-a, m)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* a * 2^n, n of any sign (negative only in the field) *)
Shl(a, n, m) == IF n >= 0 THEN (IF m = 0 THEN a * Pow2(n) ELSE (a * PowM(2, n)) % m)
                ELSE (a * PowM(Half, -n)) % m
Abs(x) == IF x < 0 THEN -x ELSE x

AS(nd, a, b, m, plus) ==
  LET bs == IF nd.sh = 0 THEN b ELSE Shl(b, -nd.sh, m)
      bj == IF nd.j = 1 THEN Mul(bs, J, m) ELSE bs
      r == IF plus THEN Add(a, bj, m) ELSE Sub(a, bj, m)
  IN IF nd.so = 0 THEN r ELSE Shl(r, -nd.so, m)

(* The function of an operation: its outputs for its inputs. *)
Fun(nd, x, m) ==
  CASE nd.k = "add"    -> <<AS(nd, x[1], x[2], m, TRUE)>>
    [] nd.k = "sub"    -> <<AS(nd, x[1], x[2], m, FALSE)>>
    [] nd.k \in {"addsub", "shiftaddsub"} -> <<AS(nd, x[1], x[2], m, nd.v = 1)>>
    [] nd.k = "cmul"   -> <<Mul(nd.v, x[1], m)>>
    [] nd.k = "mul"    -> <<Mul(x[1], x[2], m)>>
    [] nd.k = "neg"    -> <<Neg(x[1], m)>>
    [] nd.k = "c"      -> <<nd.v>>
    [] nd.k = "dontcare" -> <<0>>
    [] nd.k = "min"    -> <<IF x[1] < x[2] THEN x[1] ELSE x[2]>>
    [] nd.k = "max"    -> <<IF x[1] > x[2] THEN x[1] ELSE x[2]>>
    [] nd.k = "abs"    -> <<Abs(x[1])>>
    [] nd.k = "mad"    -> <<IF nd.v = 1 THEN Add(Mul(x[1], x[2], m), x[3], m)
                            ELSE Mul(x[1], x[2], m)>>
    [] nd.k = "mads"   -> LET t == Mul(x[2], x[3], m)
                          IN <<IF nd.w = 1
                               THEN IF nd.v = 1 THEN Add(x[1], t, m) ELSE Sub(x[1], t, m)
                               ELSE IF nd.v = 1 THEN t ELSE Neg(t, m)>>
    [] nd.k = "lshift" -> <<Shl(x[1], nd.v, m)>>
    [] nd.k = "rshift" -> <<Shl(x[1], -nd.v, m)>>
    [] nd.k = "shift"  -> <<Shl(x[1], -nd.v, m)>>   \* as fixed by the test suite
    [] nd.k = "imul"   -> <<Mul(x[1], J, m)>>
    [] nd.k = "div"    -> <<Mul(x[1], InvM(x[2]), m)>>
    [] nd.k = "rec"    -> <<InvM(x[1])>>
    [] nd.k = "sqrt"   -> <<SqrtM(x[1])>>           \* any of the two roots
    [] nd.k = "recsqrt" -> <<InvM(SqrtM(x[1]))>>
    [] nd.k = "r2bfly" -> <<Add(x[1], x[2], m), Sub(x[1], x[2], m)>>
    [] nd.k = "r2difbfly" -> <<Add(x[1], x[2], m), Mul(nd.v, Sub(x[1], x[2], m), m)>>
    [] nd.k = "r2ditbfly" -> LET t == Mul(nd.v, x[2], m)
                             IN <<Add(x[1], t, m), Sub(x[1], t, m)>>
    [] nd.k = "r2tfbfly" -> <<Mul(nd.v, Add(x[1], x[2], m), m),
                              Mul(nd.w, Sub(x[1], x[2], m), m)>>
    [] nd.k = "r4bfly" -> LET s0 == Add(x[1], x[3], m)  s1 == Add(x[2], x[4], m)
                              s2 == Sub(x[1], x[3], m)
                              s3 == Mul(J, Sub(x[4], x[2], m), m)
                          IN <<Add(s0, s1, m), Add(s2, s3, m), Sub(s0, s1, m), Sub(s2, s3, m)>>
    [] nd.k = "sym2p"  -> LET t == Mul(nd.v, Sub(x[2], x[1], m), m)
                          IN <<Add(x[2], t, m), Add(x[1], t, m)>>
    \* wave digital adaptors, by their scattering equations
    [] nd.k = "ser2p"  -> LET s == Add(x[1], x[2], m)
                          IN <<Sub(x[1], Mul(nd.v, x[1], m), m),
                               Neg(Add(s, Sub(x[1], Mul(nd.v, x[1], m), m), m), m)>>
    [] nd.k = "par2p"  -> LET s == Sub(x[2], x[1], m)
                              y1 == Sub(x[2], Mul(nd.v, s, m), m)
                          IN <<Add(y1, s, m), y1>>
    [] nd.k = "ser3p"  -> LET s == Add(Add(x[1], x[2], m), x[3], m)
                              y0 == Sub(x[1], Mul(nd.v, s, m), m)
                              y1 == Sub(x[2], Mul(nd.w, s, m), m)
                          IN <<y0, y1, Neg(Add(Add(y0, y1, m), s, m), m)>>
    [] nd.k = "rfs3p"  -> LET s == Add(x[1], x[3], m)
                              y0 == Sub(x[1], Mul(nd.v, Add(x[2], s, m), m), m)
                          IN <<y0, Neg(s, m), Neg(Add(y0, x[2], m), m)>>

IsDelay(nd) == nd.k = "t"
(* The order is a witness: a permutation in which sources come first. *)
OrderOK(g) ==
  LET n == Len(g.nodes)
      pos == [i \in 1..n |-> CHOOSE k \in 1..Len(g.order) : g.order[k] = i]
  IN /\ Len(g.order) = n
     /\ {g.order[i] : i \in 1..n} = 1..n
     /\ \A i \in 1..n : ~IsDelay(g.nodes[i]) =>
          \A k \in DOMAIN g.nodes[i].src :
             LET s == g.nodes[i].src[k][1]
             IN s > 0 /\ (IsDelay(g.nodes[s]) \/ pos[s] < pos[i])
     /\ \A i \in 1..n : IsDelay(g.nodes[i]) => g.nodes[i].src[1][1] > 0

(* Initial contents of the delays (0 at other nodes). *)
InitState(g) == [i \in DOMAIN g.nodes |-> IF IsDelay(g.nodes[i]) THEN g.nodes[i].v ELSE 0]

InIndex(g, i) == CHOOSE k \in DOMAIN g.ins : g.ins[k] = i
Arg(g, vals, i) == [k \in DOMAIN g.nodes[i].src |->
                       vals[g.nodes[i].src[k][1]][g.nodes[i].src[k][2]]]
(* All output values of all nodes for state st and inputs x. *)
Values(g, st, x) ==
  FoldLeft(LAMBDA vals, i :
     LET nd == g.nodes[i]
     IN CASE nd.k = "in" -> [vals EXCEPT ![i] = <<x[InIndex(g, i)]>>]
          [] nd.k = "t" -> vals
          [] nd.k \in {"out", "sink", "gone"} -> vals
          [] OTHER -> [vals EXCEPT ![i] = Fun(nd, Arg(g, vals, i), g.m)],
     [i \in DOMAIN g.nodes |-> IF IsDelay(g.nodes[i]) THEN <<st[i]>> ELSE <<>>],
     g.order)
Outs(g, vals) == [k \in DOMAIN g.outs |-> Arg(g, vals, g.outs[k])[1]]
NextState(g, vals) ==
  [i \in DOMAIN g.nodes |-> IF IsDelay(g.nodes[i]) THEN Arg(g, vals, i)[1] ELSE 0]
(* Value presented to every output port and Output, by node. *)
Observed(g, vals) ==
  [i \in DOMAIN g.nodes |-> IF g.nodes[i].k \in {"out"} THEN Arg(g, vals, i) ELSE vals[i]]
(* Input/output behaviour for a sequence of input vectors. *)
Response(g, X) ==
  FoldLeft(LAMBDA acc, x :
     LET vals == Values(g, acc.st, x)
     IN [st |-> NextState(g, vals), y |-> Append(acc.y, Outs(g, vals))],
     [st |-> InitState(g), y |-> <<>>], X).y
=============================================================================
