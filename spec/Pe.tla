---------------------------------- MODULE Pe ----------------------------------
(* Processing elements: which operations may share one, the tables of their   *)
(* parameters, and the results of the operations.  An operation is a record   *)
(* [ty, lat, start, exec, ...]; T is the schedule time.                       *)
EXTENDS Quant

Taken(o, T) == {(o.start + j) % T : j \in 0..(o.exec - 1)}
MayShare(a, b, T) == a.ty = b.ty /\ a.lat = b.lat /\ Taken(a, T) \cap Taken(b, T) = {}
Fit(ops, S, T) ==
  /\ \A i \in S : ops[i].exec <= T
  /\ \A i, j \in S : i < j => MayShare(ops[i], ops[j], T)

-----------------------------------------------------------------------------
(* A number is n / 2^e, in lowest terms.  The bits it needs before and after  *)
(* the point, in two's complement; for numbers beyond TLC's integers the      *)
(* harness says.                                                              *)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)      \* n natural
IntBits(v) == IF v.big THEN v.ib
              ELSE LET f == v.n \div P2(v.e) IN Bits(IF f < 0 THEN -f - 1 ELSE f) + 1
FracBits(v) == v.e

(* A parameter has a real and an imaginary part; it is complex when cx = 1.   *)
Part(p, part) == IF part = "im" THEN p.im ELSE p.re
Names(ops, S) ==
  LET ps == DOMAIN ops[CHOOSE i \in S : TRUE].par
      cx(p) == \E i \in S : ops[i].par[p].cx = 1
  IN {<<p, "">> : p \in {q \in ps : ~cx(q)}} \cup
     {<<p, x>> : p \in {q \in ps : cx(q)}, x \in {"re", "im"}}
Suffix(x) == CASE x = "re" -> "_real" [] x = "im" -> "_imag" [] OTHER -> ""

(* What is wrong with the table tab, a sequence of [name, ib, fb, vals, static,*)
(* sval, nd] with vals a sequence of <<time, number>>.                        *)
TableBad(tab, ops, S) ==
  LET want == Names(ops, S)
      Entry(w) == CHOOSE e \in Range1(tab) : e.name = w[1] \o Suffix(w[2])
      V(i, w) == Part(ops[i].par[w[1]], w[2])
      Vs(w) == {V(i, w).s : i \in S}
  IN IF {e.name : e \in Range1(tab)} # {w[1] \o Suffix(w[2]) : w \in want}
     THEN "tabulated parameters are not the operations' parameters"
     ELSE FirstBad(<<
       <<"a control value is not the parameter of the operation starting then",
         \A w \in want : {<<x.t, x.v>> : x \in Range1(Entry(w).vals)}
                           = {<<ops[i].start, V(i, w).s>> : i \in S}>>,
       <<"too few integer bits for a control value",
         \A w \in want : \A i \in S : Entry(w).ib >= IntBits(V(i, w)) \/ Entry(w).bool>>,
       <<"too few fractional bits for a control value",
         \A w \in want : \A i \in S : Entry(w).fb >= FracBits(V(i, w))>>,
       <<"number of different control values is wrong",
         \A w \in want : Entry(w).nd = Cardinality(Vs(w))>>,
       <<"constant control values are not recognised",
         \A w \in want : Entry(w).static = (Cardinality(Vs(w)) = 1)>>,
       <<"the constant control value is wrong",
         \A w \in want : Entry(w).static => Entry(w).sval \in Vs(w)>> >>)

-----------------------------------------------------------------------------
(* The results of an operation from inputs x, complex numbers in LSBs with fb *)
(* fractional bits; coefficients o.v have cb fractional bits.  A sequence of  *)
(* fractions, see Quant.                                                      *)
Result(o, x, fb, cb) ==
  LET j == IF o.j = 1 THEN TimesJ(x[2]) ELSE x[2]
      so == P2(o.so)
  IN CASE o.k = "add" -> <<Cx(Plus(x[1], j), so)>>
       [] o.k = "addsub" -> <<Cx(IF o.add = 1 THEN Plus(x[1], j) ELSE Minus(x[1], j), so)>>
       [] o.k = "shadd" ->
            LET a == Scale(x[1], P2(o.sh))
            IN <<Cx(IF o.add = 1 THEN Plus(a, j) ELSE Minus(a, j), so * P2(o.sh))>>
       [] o.k = "cmul" -> <<Cx(Times(o.v, x[1]), P2(cb))>>
       [] o.k = "mads" ->
            LET p == Times(x[2], x[3])
                a == IF o.do = 1 THEN Scale(x[1], P2(fb)) ELSE <<0, 0>>
            IN <<Cx(IF o.add = 1 THEN Plus(a, p) ELSE Minus(a, p), P2(fb))>>
       [] o.k = "sym2p" ->
            LET u == Times(o.v, Minus(x[2], x[1]))
            IN <<Cx(Plus(Scale(x[2], P2(cb)), u), P2(cb)),
                 Cx(Plus(Scale(x[1], P2(cb)), u), P2(cb))>>
=============================================================================
