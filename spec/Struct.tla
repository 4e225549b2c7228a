-------------------------------- MODULE Struct --------------------------------
(* What the generated structures are named after: difference equations of     *)
(* filters, the discrete Fourier transform, matrix product and inverse, wave  *)
(* digital allpass sections and adaptors.  All in the field Z_P (m = P), with *)
(* no reference to how a structure is built.                                  *)
EXTENDS Dataflow

SumM(s) == FoldLeft(LAMBDA a, b : (a + b) % P, 0, s)
At(s, n) == IF n \in DOMAIN s THEN s[n] ELSE 0

(* y(n) = sum b(k) x(n-k) - sum_{k>0} a(k) y(n-k); coefficients from index 1 *)
Difference(b, a, x) ==
  FoldLeft(LAMBDA y, n :
     LET fwd == SumM([k \in DOMAIN b |-> (b[k] * At(x, n - k + 1)) % P])
         bwd == SumM([k \in 1..(Len(a) - 1) |-> (a[k + 1] * At(y, n - k)) % P])
     IN Append(y, (fwd - bwd) % P),
     <<>>, [n \in DOMAIN x |-> n])

(* Allpass sections with adaptor coefficients, by their transfer functions:   *)
(*   first order   (z^-1 - v) / (1 - v z^-1)                                  *)
(*   second order  (z^-2 - u(1-v) z^-1 - v) / (1 - u(1-v) z^-1 - v z^-2)      *)
Allpass1(v, x) == Difference(<<Neg(v, P), 1>>, <<1, Neg(v, P)>>, x)
Allpass2(v, u, x) ==
  LET c == Neg(Mul(u, Sub(1, v, P), P), P)
  IN Difference(<<Neg(v, P), c, 1>>, <<1, c, Neg(v, P)>>, x)
RECURSIVE Allpass(_, _)
Allpass(c, x) ==
  IF c = <<>> THEN x
  ELSE IF Len(c) % 2 = 1 THEN Allpass(Tail(c), Allpass1(c[1], x))
  ELSE Allpass(SubSeq(c, 3, Len(c)), Allpass2(c[1], c[2], x))
(* The lattice: second-order sections go to the branches in turn.             *)
Sections(c, odd) ==    \* the sections behind a first-order one
  LET r == IF odd THEN Tail(c) ELSE c
  IN [i \in 1..(Len(r) \div 2) |-> <<r[2 * i - 1], r[2 * i]>>]
Branch(s, first) ==    \* every other section, from the first or second
  FoldLeft(LAMBDA a, i : IF (i % 2 = 1) = first THEN a \o s[i] ELSE a, <<>>,
           [i \in DOMAIN s |-> i])
Lattice(c, x) ==
  LET odd == Len(c) % 2 = 1
      s == Sections(c, odd)
      up == IF odd THEN <<c[1]>> \o Branch(s, FALSE) ELSE Branch(s, TRUE)
      lo == IF odd THEN Branch(s, TRUE) ELSE Branch(s, FALSE)
      p == Allpass(up, x)
      q == Allpass(lo, x)
  IN [n \in DOMAIN x |-> Mul(Half, Add(p[n], q[n], P), P)]

(* The transform; r is a primitive root of unity of order n with r^(n/4) = -j *)
RootOK(r, n) ==
  CASE n = 1 -> r = 1
    [] n = 2 -> r = P - 1
    [] OTHER -> PowM(r, n \div 4) = P - J
Dft(r, x) ==
  LET n == Len(x)
      pw == FoldLeft(LAMBDA a, i : Append(a, (a[Len(a)] * r) % P), <<1>>, [i \in 1..(n - 1) |-> i])
  IN [k \in 1..n |-> SumM([i \in 1..n |-> (x[i] * pw[(((k - 1) * (i - 1)) % n) + 1]) % P])]

(* Matrices, as functions of row and column. *)
Product(A, B, m, n, p) ==
  [i \in 1..m, j \in 1..p |-> SumM([k \in 1..n |-> (A[i, k] * B[k, j]) % P])]
Full(x, n, m) == [i \in 1..n, j \in 1..m |-> x[(i - 1) * m + j]]
Flat(A, n, m) == [q \in 1..(n * m) |-> A[((q - 1) \div m) + 1, ((q - 1) % m) + 1]]
(* The symmetric matrix with lower triangle x, row by row. *)
Sym(x, n) ==
  [i \in 1..n, j \in 1..n |->
     LET r == IF i >= j THEN i ELSE j
         c == IF i >= j THEN j ELSE i
     IN x[(r * (r - 1)) \div 2 + c]]
IsInverse(x, y, n) ==
  LET C == Product(Sym(x, n), Sym(y, n), n, n, n)
  IN /\ Len(y) = (n * (n + 1)) \div 2
     /\ \A i, j \in 1..n : C[i, j] = IF i = j THEN 1 ELSE 0

Col(X, k) == [n \in DOMAIN X |-> X[n][k]]
Single(y) == [n \in DOMAIN y |-> <<y[n]>>]
(* Is Y what the named function gives for the inputs X (by time)? *)
Computes(f, X, Y) ==
  CASE f.k = "filter" -> Y = Single(Difference(f.b, f.a, Col(X, 1)))
    [] f.k = "allpass" -> Y = Single(Allpass(f.b, Col(X, 1)))
    [] f.k = "lattice" -> Y = Single(Lattice(f.b, Col(X, 1)))
    [] f.k = "dft" -> RootOK(f.r, f.n) /\ Y = [t \in DOMAIN X |-> Dft(f.r, X[t])]
    [] f.k = "matmul" ->
         Y = [t \in DOMAIN X |->
               LET A == Full(SubSeq(X[t], 1, f.m * f.n), f.m, f.n)
                   B == Full(SubSeq(X[t], f.m * f.n + 1, Len(X[t])), f.n, f.p)
               IN Flat(Product(A, B, f.m, f.n, f.p), f.m, f.p)]
    [] f.k = "inverse" -> /\ Len(Y) = Len(X)
                          /\ \A t \in DOMAIN X : IsInverse(X[t], Y[t], f.n)

(* Adaptors by Kirchhoff's laws: for waves a, b at ports with normalised      *)
(* weights c (sum 2), port voltages (a+b)/2 and currents (a-b)/(2R).          *)
Volt(a, b, k) == Add(a[k], b[k], P)
Amp(a, b, k) == Sub(a[k], b[k], P)
Parallel(c, a, b) ==     \* weights are conductances
  /\ \A k \in DOMAIN a : Volt(a, b, k) = Volt(a, b, 1)
  /\ SumM([k \in DOMAIN a |-> Mul(c[k], Amp(a, b, k), P)]) = 0
Series(c, a, b) ==       \* weights are resistances
  /\ SumM([k \in DOMAIN a |-> Volt(a, b, k)]) = 0
  /\ \A k, l \in DOMAIN a : Mul(c[l], Amp(a, b, k), P) = Mul(c[k], Amp(a, b, l), P)
Weights(k, v) ==
  CASE k = "sym2p" -> <<Sub(1, v[1], P), Add(1, v[1], P)>>
    [] k \in {"ser2p", "par2p"} -> <<v[1], Sub(2, v[1], P)>>
    [] k = "ser3p" -> <<v[1], v[2], Sub(Sub(2, v[1], P), v[2], P)>>
    [] k = "rfs3p" -> <<v[1], 1, Sub(1, v[1], P)>>
(* Scattering is the only solution of the laws unless weights vanish.         *)
Scatter(k, v, a) ==
  LET c == Weights(k, v)
      s == SumM(a)
      t == SumM([i \in DOMAIN a |-> Mul(c[i], a[i], P)])
  IN IF k \in {"sym2p", "par2p"} THEN [i \in DOMAIN a |-> Sub(t, a[i], P)]
     ELSE [i \in DOMAIN a |-> Sub(a[i], Mul(c[i], s, P), P)]
Lawful(k, v, a, b) ==
  IF k \in {"sym2p", "par2p"} THEN Parallel(Weights(k, v), a, b)
  ELSE Series(Weights(k, v), a, b)

(* Transforms of 2, 3, 4, 5 and 7 points on real numbers: cosines and sines   *)
(* of 2 pi k / n in units of 1e-7.                                            *)
U == 10000000
CosT(n) ==
  CASE n = 2 -> <<U, -U>>
    [] n = 4 -> <<U, 0, -U, 0>>
    [] n = 3 -> <<U, -5000000, -5000000>>
    [] n = 5 -> <<U, 3090170, -8090170, -8090170, 3090170>>
    [] n = 7 -> <<U, 6234898, -2225209, -9009689, -9009689, -2225209, 6234898>>
SinT(n) ==
  CASE n = 2 -> <<0, 0>>
    [] n = 4 -> <<0, U, 0, -U>>
    [] n = 3 -> <<0, 8660254, -8660254>>
    [] n = 5 -> <<0, 9510565, 5877853, -5877853, -9510565>>
    [] n = 7 -> <<0, 7818315, 9749279, 4338837, -4338837, -9749279, -7818315>>
SumI(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* xs, ys: <<re, im>>; x small integers, y in units *)
KernelOK(xs, ys) ==
  LET n == Len(xs)
      c == CosT(n)
      s == SinT(n)
      ix(k, i) == (((k - 1) * (i - 1)) % n) + 1
      re(k) == SumI([i \in 1..n |-> xs[i][1] * c[ix(k, i)] + xs[i][2] * s[ix(k, i)]])
      im(k) == SumI([i \in 1..n |-> xs[i][2] * c[ix(k, i)] - xs[i][1] * s[ix(k, i)]])
  IN /\ Len(ys) = n
     /\ \A k \in 1..n : Abs(ys[k][1] - re(k)) <= 100 /\ Abs(ys[k][2] - im(k)) <= 100
=============================================================================
