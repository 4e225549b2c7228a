----------------------------- MODULE DesignTrace -----------------------------
(* Judges simulations of generated designs: every output delivers, in the     *)
(* cycle the schedule delivers it, what the scheduled operations compute of   *)
(* the inputs present in the cycles the schedule reads them; cycles in which  *)
(* the design is not enabled do not count.                                    *)
EXTENDS Design, TraceBase
VARIABLES tid, l, err
vars == <<tid, l, err>>
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""

(* The clocks at which the design is enabled, in order: schedule cycle c is   *)
(* the (c + 1)th of them.                                                     *)
Clocks(e) == SelectSeq([i \in DOMAIN e.gaps |-> i], LAMBDA i : e.gaps[i] = 1)
RunBad(d, e) ==
  LET on == Clocks(e)
      ni == {v \in DOMAIN d.ops : d.ops[v].k = "in"}
      no == {v \in DOMAIN d.ops : d.ops[v].k = "out"}
      At(v, n) == (n - 1) * d.T + d.ops[v].s + 1
      last == Len(on) - e.lag
      N == CHOOSE n \in 0..Len(on) :
             /\ \A v \in ni \cup no : n > 0 => At(v, n) <= last
             /\ \E v \in ni \cup no : At(v, n + 1) > last
      X == [n \in 1..N |-> [v \in DOMAIN d.ops |->
              IF v \in ni THEN e.ins[on[At(v, n)] - e.early][d.ops[v].port] ELSE Zero]]
      H == Computed(d, Order(d), X)
      \* seen so many clocks later, when there are registers at inputs and outputs
      Seen(v, n) == Ring(e.out[on[At(v, n)] + e.lag][d.ops[v].port])
  IN IF Order(d) = <<>> THEN "not executable"
     ELSE IF N <= e.skip THEN "no period was simulated"
     ELSE IF \E n \in (e.skip + 1)..N, v \in no : e.out[on[At(v, n)] + e.lag][d.ops[v].port] = <<-999999, 0>>
          THEN "an output is not defined when it is due"
     ELSE IF \E n \in (e.skip + 1)..N, v \in no : Seen(v, n) # H[n][v][1]
          THEN "an output is not what the schedule computes of the inputs"
     ELSE ""
Bad(d, e) ==
  CASE e.kind = "refused" -> "the design could not be printed"
    [] e.kind = "illegal" -> "the printed design is not legal VHDL"
    [] OTHER -> RunBad(d, e)

TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Bad(Traces[tid].d, Traces[tid].steps[l'])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
