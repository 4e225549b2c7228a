-------------------------------- MODULE PeTrace --------------------------------
(* Processing elements as built, extended and printed by the real code.  The  *)
(* steps of a trace are "build" (the operations in set), "add" (operation i)  *)
(* and "run" (the simulated hardware: rows of inputs and outputs, cycle by    *)
(* cycle).  The state is the set of operations in the element.                *)
EXTENDS Pe, TraceBase
VARIABLES tid, l, err, S
vars == <<tid, l, err, S>>
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = "" /\ S = {}

Put(tr, e, U) ==
  LET fit == Fit(tr.ops, U, tr.T)
  IN IF e.ok # fit
     THEN IF fit THEN "operations that can share an element were refused"
          ELSE "operations that cannot share an element were accepted"
     ELSE ""
After(tr, e, U) ==
  IF U = {} THEN ""
  ELSE IF Range1(e.has) # U \/ Len(e.has) # Cardinality(U)
       THEN "the element does not hold the operations given to it"
       ELSE TableBad(e.tab, tr.ops, U)

Pairs(row, cx) == IF cx = 0 THEN [i \in DOMAIN row |-> <<row[i], 0>>]
                  ELSE [i \in 1..(Len(row) \div 2) |-> <<row[2 * i - 1], row[2 * i]>>]
RunBad(tr, e) ==
  LET lat == e.lat
      Due(n) == {i \in S : n - lat >= tr.T /\ (n - lat) % tr.T = tr.ops[i].start % tr.T}
      Good(n, i) ==
        LET x == Pairs(e.ins[n - lat + 1], e.cx)
            y == Pairs(e.out[n + 1], e.cx)
            c == Result(tr.ops[i], x, e.fb, e.cb)
            \* coefficients may be written with more bits than they need
            r == IF tr.ops[i].k \notin {"cmul", "sym2p"} THEN c
                 ELSE [p \in DOMAIN c |-> [re |-> 2 * c[p].re, im |-> 2 * c[p].im, d |-> 2 * c[p].d]]
        IN Len(y) = Len(r) /\ \A p \in DOMAIN r : Fits(e.dt, r[p], y[p])
      Undef(n) == \E k \in DOMAIN e.out[n + 1] : e.out[n + 1][k] = -999999
  IN CASE e.kind = "illegal" -> "generated hardware description is not legal VHDL"
       [] e.kind = "refused" -> "the element cannot be printed"
       [] OTHER ->
            IF \E n \in 0..(Len(e.out) - 1) : Due(n) # {} /\ Undef(n)
            THEN "the result of an operation is undefined when it is due"
            ELSE IF \E n \in 0..(Len(e.out) - 1) : \E i \in Due(n) : ~Good(n, i)
                 THEN "the result of an operation is wrong when it is due"
                 ELSE ""
TNext ==
  LET tr == Traces[tid]
      e == tr.steps[l + 1]
      U == CASE e.act = "build" -> Range1(e.set)
             [] e.act = "add" -> S \cup {e.i}
             [] OTHER -> S
      V == IF e.act = "run" THEN S ELSE IF e.ok THEN U ELSE S
  IN /\ err = "" /\ l < Len(tr.steps)
     /\ l' = l + 1 /\ tid' = tid /\ S' = V
     /\ err' = IF e.act = "run" THEN RunBad(tr, e)
               ELSE FirstOf(<<Put(tr, e, U), After(tr, e, V)>>)
     /\ IF err' # "" THEN Say("VIOL", tid, l', err')
        ELSE IF l' = Len(tr.steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
