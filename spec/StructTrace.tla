------------------------------ MODULE StructTrace ------------------------------
(* Generated structures (read as graphs) against the functions they are named *)
(* after; adaptors and transform kernels as evaluated by the code.            *)
EXTENDS Struct, TraceBase
VARIABLES tid, l, err
Verdict(t, s) ==
  CASE s.kind = "respond" ->
         IF ~OrderOK(t.g) THEN "generated structure has no order of evaluation"
         ELSE IF Computes(t.f, s.X, Response(t.g, s.X)) THEN ""
         ELSE "generated structure computes another function"
    [] s.kind = "simulated" ->
         IF Computes(t.f, s.X, s.Y) THEN ""
         ELSE "simulated structure computes another function"
    [] s.kind = "timing" ->
         IF \A i \in DOMAIN s.got : s.got[i] = s.want THEN ""
         ELSE "requested latency or execution time not applied"
    [] s.kind = "names" -> IF s.got = s.want THEN ""
                           ELSE "an operation is named after another one"
    [] s.kind = "adaptor" ->
         IF Lawful(s.k, s.v, s.a, s.b) /\ s.b = Scatter(s.k, s.v, s.a) THEN ""
         \* the recorded finding: the series two-port as the code has it (and its
         \* test suite fixes it) is reported once, in a strict trace
         ELSE IF s.k = "ser2p" /\ ~s.strict /\ s.b = Fun([k |-> s.k, v |-> s.v[1]], s.a, P) THEN "" ELSE "adaptor does not scatter as defined: " \o s.k
    [] s.kind = "kernel" -> IF KernelOK(s.x, s.y) THEN "" ELSE "not the discrete Fourier transform"
    [] s.kind = "refused" -> "a supported size or coefficient set is refused"
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid], Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
