-------------------------------- MODULE PeModel --------------------------------
(* The generated processing element, clock cycle by clock cycle: registers at *)
(* the inputs, an arithmetic core, registers at the outputs, and control from *)
(* a table indexed by the schedule counter, that many cycles later than the   *)
(* start of an operation as there are input registers, through a register or  *)
(* not.  Operations are told by their control value, inputs by the cycle.     *)
(* Every period up to MaxT, latency up to MaxL, division of the registers and *)
(* set of start times.  Which sets may share the element, and how many bits   *)
(* numbers need, is checked against first principles as well.                 *)
EXTENDS Pe, Json
CONSTANTS MaxT, MaxL
VARIABLES d, t, ins, ctl, outs
vars == <<d, t, ins, ctl, outs>>

None == <<-1, -1>>
Init ==
  /\ \E T \in 1..MaxT, nin, nout \in 0..MaxL, pipe \in {0, 1} :
       /\ nin + nout <= MaxL
       /\ \E S \in SUBSET (0..(T - 1)) :
            /\ S # {}
            /\ d = [T |-> T, nin |-> nin, nout |-> nout, pipe |-> pipe, S |-> S]
            /\ PrintT("TR|" \o ToJson([T |-> T, nin |-> nin, nout |-> nout, pipe |-> pipe,
                                       S |-> SetToSortSeq(S, <)]))
  /\ t = 0 /\ ins = [i \in 1..d.nin |-> -1] /\ outs = [i \in 1..d.nout |-> None] /\ ctl = -1

\* the table: what it gives at counter value c
Table(c) == LET E == {s \in d.S : (s + d.nin - d.pipe) % d.T = c}
            IN IF E = {} THEN -1 ELSE CHOOSE s \in E : TRUE
Now == Table(t % d.T)
Control == IF d.pipe = 1 THEN ctl ELSE Now
Core == <<Control, IF d.nin = 0 THEN t ELSE ins[d.nin]>>
Output == IF d.nout = 0 THEN Core ELSE outs[d.nout]
Shifted(s, x) == IF s = <<>> THEN s ELSE <<x>> \o SubSeq(s, 1, Len(s) - 1)
Next ==
  /\ t < 3 * d.T + MaxL
  /\ t' = t + 1 /\ d' = d
  /\ ins' = Shifted(ins, t) /\ outs' = Shifted(outs, Core) /\ ctl' = Now
Spec == Init /\ [][Next]_vars

\* from the second period on
Follows ==
  LET s == t - d.nin - d.nout
  IN s >= d.T /\ (s % d.T) \in d.S => Output = <<s % d.T, s>>

\* numbers with at most 4 bits before and after the point
Num(n, e) == [n |-> n, e |-> e, big |-> FALSE, ib |-> 0, s |-> ""]
Representable(n, e, i, f) ==
  e <= f /\ LET m == n * P2(f - e) IN -P2(i + f - 1) <= m /\ m < P2(i + f - 1)
ASSUME \A e \in 0..3, n \in -64..64 : e = 0 \/ n % 2 = 1 =>
         LET v == Num(n, e)
         IN \A i \in 1..6, f \in 0..4 :
              Representable(n, e, i, f) <=> i >= IntBits(v) /\ f >= FracBits(v)
\* two operations share an element if and only if no cycle has both
Op(s, x) == [ty |-> "a", lat |-> 1, start |-> s, exec |-> x]
ASSUME \A T \in 1..5 : \A s1, s2 \in 0..(T - 1), x1, x2 \in 1..T :
         Fit(<<Op(s1, x1), Op(s2, x2)>>, {1, 2}, T) <=>
           ~ \E c1, c2 \in 0..2, j1 \in 0..(x1 - 1), j2 \in 0..(x2 - 1) :
               s1 + c1 * T + j1 = s2 + c2 * T + j2
=============================================================================
