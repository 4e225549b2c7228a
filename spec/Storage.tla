-------------------------------- MODULE Storage --------------------------------
(* Storage of variables of a periodic schedule: variable v, with start s and  *)
(* reads rd (delays after the start), receives a new value every period T and *)
(* the value is to be presented at the output once for every read.            *)
(*                                                                            *)
(* Time is counted in clock cycles; the storage as a whole may be retimed:    *)
(* the value of a variable is taken from the input in the cycle sh + s and    *)
(* leaves lat cycles later than the schedule has it.                          *)
EXTENDS Common

\* what arriving in cycle t obliges the storage to present, as <<cycle, value>>
Arriving(P, T, sh, lat, t, val) ==
  IF t < sh THEN {}
  ELSE UNION {{<<t + x + lat, val>> : x \in Range1(P[v].rd)} :
                v \in {w \in DOMAIN P : (t - sh - P[w].s) % T = 0}}
\* a single write port and a single read port suffice
OnePort(P, T) ==
  \A t \in 0..(T - 1) :
    /\ Cardinality({v \in DOMAIN P : P[v].s % T = t}) <= 1
    /\ Cardinality({<<v, x>> \in (DOMAIN P) \X (0..T) :
                      x \in Range1(P[v].rd) /\ (P[v].s + x) % T = t}) <= 1
=============================================================================
