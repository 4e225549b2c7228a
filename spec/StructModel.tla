------------------------------ MODULE StructModel ------------------------------
(* The structures as clocked machines of their own, built as the literature   *)
(* builds them, against the functions they are named after: every small       *)
(* coefficient set and input sequence.                                        *)
EXTENDS Struct, Json
Case == JsonDeserialize("model.json")
Cs == Range1(Case.coefs)
Xs == Range1(Case.inputs)
VARIABLES kind, b, a, x, regs, y
vars == <<kind, b, a, x, regs, y>>
Seqs(n) == [1..n -> Cs]
Zero(n) == [i \in 1..n |-> 0]
Init ==
  /\ x = <<>> /\ y = <<>>
  /\ \E n \in 1..Case.taps :
       /\ b \in Seqs(n)
       /\ kind \in {"direct", "transposed", "df1", "df2", "ladder", "symmetric"}
       /\ kind \in {"df1", "df2"} => n > 1
       /\ a \in IF kind \in {"df1", "df2"} THEN {<<1>> \o s : s \in Seqs(n - 1)} ELSE {<<1>>}
       /\ kind = "symmetric" => \A i \in 1..n : b[i] = b[n + 1 - i]
       /\ regs = Zero(2 * n)
(* one clock cycle: output and next registers *)
Direct(u) ==
  LET n == Len(b)
      line == <<u>> \o regs
  IN [y |-> SumM([i \in 1..n |-> Mul(b[i], line[i], P)]), r |-> SubSeq(line, 1, 2 * n)]
Symmetric(u) ==   \* pairs of taps share a multiplier, the middle one stands alone
  LET n == Len(b)
      line == <<u>> \o regs
      h == n \div 2
  IN [y |-> Add(SumM([i \in 1..h |-> Mul(b[i], Add(line[i], line[n + 1 - i], P), P)]),
                IF n % 2 = 1 THEN Mul(b[h + 1], line[h + 1], P) ELSE 0, P),
      r |-> SubSeq(line, 1, 2 * n)]
Transposed(u) ==  \* regs[i] holds the sum of the taps from i + 1
  LET n == Len(b)
  IN [y |-> Add(Mul(b[1], u, P), regs[1], P),
      r |-> [i \in 1..(2 * n) |-> IF i < n THEN Add(Mul(b[i + 1], u, P),
                                                    IF i < n - 1 THEN regs[i + 1] ELSE 0, P)
                                  ELSE 0]]
Df1(u) ==
  LET n == Len(b)
      xl == <<u>> \o SubSeq(regs, 1, n - 1)
      yl == SubSeq(regs, n + 1, 2 * n)
      o == Sub(SumM([i \in 1..n |-> Mul(b[i], xl[i], P)]),
               SumM([i \in 1..(n - 1) |-> Mul(a[i + 1], yl[i], P)]), P)
  IN [y |-> o, r |-> xl \o SubSeq(<<o>> \o yl, 1, n)]
Df2(u) ==
  LET n == Len(b)
      w == Sub(u, SumM([i \in 1..(n - 1) |-> Mul(a[i + 1], regs[i], P)]), P)
      line == <<w>> \o regs
  IN [y |-> SumM([i \in 1..n |-> Mul(b[i], line[i], P)]), r |-> SubSeq(line, 1, 2 * n)]
Adapt(v, p, q) ==  \* symmetric two-port
  LET t == Mul(v, Sub(q, p, P), P) IN <<Add(q, t, P), Add(p, t, P)>>
RECURSIVE Ladder(_, _, _)
Ladder(c, r, u) ==   \* [y, r]: sections in cascade, with their registers
  IF c = <<>> THEN [y |-> u, r |-> <<>>]
  ELSE IF Len(c) % 2 = 1 THEN
    LET o == Adapt(c[1], u, r[1])
        z == Ladder(Tail(c), Tail(r), o[1])
    IN [y |-> z.y, r |-> <<o[2]>> \o z.r]
  ELSE
    LET w == Adapt(c[2], r[1], r[2])
        o == Adapt(c[1], u, w[1])
        z == Ladder(SubSeq(c, 3, Len(c)), SubSeq(r, 3, Len(r)), o[1])
    IN [y |-> z.y, r |-> <<o[2], w[2]>> \o z.r]
Cycle(u) ==
  CASE kind = "direct" -> Direct(u)
    [] kind = "symmetric" -> Symmetric(u)
    [] kind = "transposed" -> Transposed(u)
    [] kind = "df1" -> Df1(u)
    [] kind = "df2" -> Df2(u)
    [] kind = "ladder" -> LET z == Ladder(b, SubSeq(regs, 1, Len(b)), u)
                          IN [y |-> z.y, r |-> z.r \o Zero(Len(b))]
Next ==
  /\ Len(x) < Case.length
  /\ \E u \in Xs : LET z == Cycle(u)
                   IN x' = Append(x, u) /\ y' = Append(y, z.y) /\ regs' = z.r
  /\ UNCHANGED <<kind, b, a>>
  /\ Len(x') = Case.length =>
       PrintT("TR|" \o ToJson([k |-> kind, b |-> b, a |-> a, x |-> x', y |-> y']))
Spec == Init /\ [][Next]_vars
Correct == y = IF kind = "ladder" THEN Allpass(b, x) ELSE Difference(b, a, x)
(* Decimation in frequency, recursively. *)
RECURSIVE Dif(_, _)
Dif(r, s) ==
  LET n == Len(s)
      h == n \div 2
      top == Dif((r * r) % P, [i \in 1..h |-> Add(s[i], s[i + h], P)])
      bot == Dif((r * r) % P,
                 [i \in 1..h |-> Mul(Sub(s[i], s[i + h], P), PowM(r, i - 1), P)])
  IN IF n = 1 THEN s
     ELSE [k \in 1..n |-> IF k % 2 = 1 THEN top[(k + 1) \div 2] ELSE bot[k \div 2]]
Root(n) == CHOOSE r \in 1..(P - 1) : RootOK(r, n)
ASSUME \A n \in {1, 2, 4, 8, 16} : \A k \in 1..n :
  LET s == [i \in 1..n |-> IF i = k THEN 1 ELSE IF i = 1 THEN 3 ELSE 0]
  IN Dif(Root(n), s) = Dft(Root(n), s)
(* Square roots. *)
ASSUME \A s \in 1..60 : LET q == SqrtM((s * s) % P) IN q \in {s, P - s}
(* Adaptors: scattering obeys the laws. *)
ASSUME \A k \in {"sym2p", "ser2p", "par2p", "ser3p", "rfs3p"} :
  LET n == IF k \in {"ser3p", "rfs3p"} THEN 3 ELSE 2
  IN \A w \in [1..n -> {0, 1, 5}] : \A v \in [1..2 -> {0, 1, Half, P - 3}] :
       Lawful(k, v, w, Scatter(k, v, w))
=============================================================================
