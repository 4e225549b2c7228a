-------------------------------- MODULE Quant --------------------------------
(* Two's complement quantization, signed-digit recoding and the elementary    *)
(* sequence operations, on integers.  A number is an integer n together with  *)
(* its scale 2^-e.                                                            *)
EXTENDS Common

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)

(* Results of rounding n/d (d a power of two) to an integer; a set, as the    *)
(* hardware form of magnitude truncation (adding the sign bit) is also used.  *)
Round(mode, n, d) ==
  LET f == n \div d
      exact == n % d = 0
      odd == IF f % 2 = 0 THEN f + 1 ELSE f
      near == (2 * n + d) \div (2 * d)
      zero == IF n >= 0 \/ exact THEN f ELSE f + 1
  IN CASE mode = "TRUNCATION" -> f
       [] mode = "ROUNDING" -> near
       [] mode \in {"MAGNITUDE_TRUNCATION", "UNBIASED_MAGNITUDE_TRUNCATION"} -> zero
       [] mode = "JAMMING" -> odd
       [] mode = "UNBIASED_JAMMING" -> IF exact THEN f ELSE odd
       [] mode = "UNBIASED_ROUNDING" ->
            IF (2 * n + d) % (2 * d) = 0 /\ near % 2 = 1 THEN near - 1 ELSE near

(* The number of bits is w; the value q is an integer number of LSBs. *)
Limit(ovf, q, w) ==
  LET h == P2(w - 1)
  IN IF ovf = "SATURATION" THEN (IF q > h - 1 THEN h - 1 ELSE IF q < -h THEN -h ELSE q)
     ELSE ((q + h) % (2 * h)) - h
Quantized(mode, ovf, n, d, w) == Limit(ovf, Round(mode, n, d), w)

(* What an operation of a data type may return for the exact value n/d: a     *)
(* value on the grid need not be jammed.                                      *)
Casts(dt, n, d) ==
  {Quantized(dt.q, dt.o, n, d, dt.w)} \cup
  (IF dt.q # "MAGNITUDE_TRUNCATION" \/ d = 1 THEN {}
   ELSE {Limit(dt.o, (n \div d) + (IF n < 0 THEN 1 ELSE 0), dt.w)}) \cup
  (IF dt.q # "JAMMING" \/ n % d # 0 THEN {} ELSE {Limit(dt.o, n \div d, dt.w)})

-----------------------------------------------------------------------------
(* The exact results of operations on complex numbers <<re, im>> in LSBs with *)
(* fb fractional bits: a sequence of [re, im, d], the value being re/d, im/d. *)
Cx(z, d) == [re |-> z[1], im |-> z[2], d |-> d]
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Times(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Scale(a, n) == <<a[1] * n, a[2] * n>>
TimesJ(a) == <<-a[2], a[1]>>
Exact(nd, x, fb) ==
  LET one == P2(fb)
      b == IF nd.j = 1 THEN TimesJ(x[2]) ELSE x[2]
      sh == P2(nd.so)
  IN CASE nd.k = "add" -> <<Cx(Plus(x[1], b), sh)>>
       [] nd.k = "sub" -> <<Cx(Minus(x[1], b), sh)>>
       [] nd.k = "addsub" -> <<Cx(IF nd.v[1] = one THEN Plus(x[1], b) ELSE Minus(x[1], b), sh)>>
       [] nd.k = "neg" -> <<Cx(Scale(x[1], -1), 1)>>
       [] nd.k = "imul" -> <<Cx(TimesJ(x[1]), 1)>>
       [] nd.k = "mul" -> <<Cx(Times(x[1], x[2]), one)>>
       [] nd.k = "cmul" -> <<Cx(Times(nd.v, x[1]), one)>>
       [] nd.k = "mad" -> <<Cx(IF nd.n = 1 THEN Plus(Times(x[1], x[2]), Scale(x[3], one))
                               ELSE Times(x[1], x[2]), one)>>
       [] nd.k = "lshift" -> <<Cx(Scale(x[1], P2(nd.n)), 1)>>
       [] nd.k = "rshift" -> <<Cx(x[1], P2(nd.n))>>
       [] nd.k = "shift" -> <<IF nd.n < 0 THEN Cx(Scale(x[1], P2(-nd.n)), 1)
                              ELSE Cx(x[1], P2(nd.n))>>
       [] nd.k = "r2bfly" -> <<Cx(Plus(x[1], x[2]), 1), Cx(Minus(x[1], x[2]), 1)>>
       [] nd.k = "min" -> <<Cx(IF x[1][1] < x[2][1] THEN x[1] ELSE x[2], 1)>>
       [] nd.k = "max" -> <<Cx(IF x[1][1] > x[2][1] THEN x[1] ELSE x[2], 1)>>
       [] nd.k = "abs" -> <<Cx(IF x[1][1] < 0 THEN Scale(x[1], -1) ELSE x[1], 1)>>
Fits(dt, c, y) == y[1] \in Casts(dt, c.re, c.d) /\ y[2] \in Casts(dt, c.im, c.d)

-----------------------------------------------------------------------------
(* Signed digits, most significant first. *)
Digits(s) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, s)
Canonical(s) ==
  /\ \A i \in DOMAIN s : s[i] \in -1..1
  /\ \A i \in 1..(Len(s) - 1) : s[i] = 0 \/ s[i + 1] = 0
  /\ s = <<>> \/ s[1] # 0

(* Sequences. *)
Woven(ss) == LET k == Len(ss) IN [i \in 1..(k * Len(ss[1])) |->
                                    ss[((i - 1) % k) + 1][((i - 1) \div k) + 1]]
Picked(s, f, p) == [i \in 1..((Len(s) - p + f - 1) \div f) |-> s[(i - 1) * f + p + 1]]
Spread(s, f, p) == [i \in 1..(Len(s) * f) |->
                      IF (i - 1) % f = p THEN s[(i - 1) \div f + 1] ELSE 0]
=============================================================================
