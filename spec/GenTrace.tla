------------------------------- MODULE GenTrace -------------------------------
(* Recorded queries to generators, in the order they were made.               *)
EXTENDS Gen, TraceBase
VARIABLES tid, l, err
Verdict(e, s) ==
  CASE s.kind = "at" -> IF Value(e, s.t) = s.v THEN "" ELSE "generator value differs"
    [] s.kind = "sum" ->  \* a range of times at once, as the simulation asks for
         IF \A i \in DOMAIN s.vs : Value(e, s.t + i - 1) = s.vs[i] THEN ""
         ELSE "simulated input differs from the generator"
    [] s.kind = "shown" ->
         IF \A i \in DOMAIN s.vs : LET w == Value(e, s.t + i - 1) IN w = Undef \/ w = s.vs[i]
         THEN "" ELSE "the printed expression is another generator"
    [] s.kind = "sine" -> IF s.v - Sine(s.a, s.b, s.t) \in -1..1 THEN ""
                          ELSE "sinusoid value differs"
    [] s.kind = "noise" ->
         IF s.a = s.b /\ \A i \in DOMAIN s.a : s.a[i] >= s.lo /\ s.a[i] <= s.hi THEN ""
         ELSE "noise is not reproducible or leaves its range"
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid].e, Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
