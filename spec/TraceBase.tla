------------------------------ MODULE TraceBase ------------------------------
(* Total verdicts: every trace ends with a DONE line or with a VIOL line that *)
(* names the failing clause.  A trace specification defines, for trace t,     *)
(* TrStart(t) and TrStep(t, s, k) = [s |-> next state, err |-> clause or ""]. *)
EXTENDS Common, Json

Traces == JsonDeserialize("traces.json")

Say(kind, t, l, txt) ==
  PrintT(kind \o "|" \o ToString(t) \o "|" \o ToString(l) \o "|" \o txt)
=============================================================================
