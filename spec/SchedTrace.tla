------------------------------ MODULE SchedTrace -----------------------------
(* Recorded edit histories of real Schedule objects against Sched.            *)
EXTENDS Sched, TraceBase

VARIABLES tid, l, err
vars == <<tid, l, err>>

St(r) == [T |-> r.T, S |-> r.S, L |-> r.L, lin |-> r.lin, lout |-> r.lout, ex |-> r.ex]

TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""

Verdict(t, k) ==
  LET tr == Traces[t]
      r == tr.steps[k]
      s == St(r)
  IN FirstOf(<<
       IF k = 1 THEN Valid(tr.K, tr.E, s)
       ELSE EditVerdict(tr.K, tr.E, tr.cyc, St(tr.steps[k-1]), s, r.ev),
       IF "FS" \in DOMAIN r THEN SlacksReported(tr.E, s, r.FS, r.BS) ELSE "",
       IF "dec" \in DOMAIN r /\ Range1(r.dec) # Decrements(tr.K, s)
       THEN "possible resolution decrements reported wrongly" ELSE "">>)

TNext ==
  /\ err = ""
  /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(tid, l + 1)
  /\ IF err' # "" THEN Say("VIOL", tid, l', Traces[tid].steps[l'].ev.op \o ": " \o err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
