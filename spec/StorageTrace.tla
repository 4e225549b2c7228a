------------------------------ MODULE StorageTrace ------------------------------
(* Cycle by cycle records of the simulated hardware.  The value at the input  *)
(* in cycle t is t modulo M; out[t+1] is the value of the output in cycle t,  *)
(* -1 when it has none.  The state is the set of values owed.                 *)
EXTENDS Storage, TraceBase
VARIABLES tid, l, err, owed
vars == <<tid, l, err, owed>>
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = "" /\ owed = {}

Refused(tr) ==
  IF OnePort(tr.P, tr.T) /\ ~tr.may
  THEN "storage that one write port and one read port suffice for was refused" ELSE ""
Cycle(tr, t, due) ==
  IF \A d \in due : d[1] # t \/ tr.out[t + 1] = d[2] THEN ""
  ELSE IF \E d \in due : d[1] = t /\ tr.out[t + 1] = -1
       THEN "no value at the output when a variable is to be read"
       ELSE "another value than the variable's at the output when it is to be read"
TNext ==
  LET tr == Traces[tid]
      last == IF tr.kind = "run" THEN Len(tr.out) ELSE 1
      new == IF tr.kind = "run" /\ l >= tr.T + tr.sh
             THEN Arriving(tr.P, tr.T, tr.sh, tr.lat, l, l % tr.M) ELSE {}
      due == owed \cup new
  IN /\ err = "" /\ l < last
     /\ l' = l + 1 /\ tid' = tid
     /\ owed' = IF tr.kind = "run" THEN {d \in due : d[1] > l} ELSE {}
     /\ err' = CASE tr.kind = "run" -> Cycle(tr, l, due)
                 [] tr.kind = "refused" -> Refused(tr)
                 [] OTHER -> "generated hardware description is not legal VHDL"
     /\ IF err' # "" THEN Say("VIOL", tid, l', err')
        ELSE IF l' = last THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
