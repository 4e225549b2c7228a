--------------------------- MODULE SchedFunTrace -----------------------------
(* The function of a schedule.                                                *)
(*                                                                            *)
(* A schedule executes the operations of a graph periodically.  Operation v   *)
(* has an absolute start time A[v]; within the schedule it starts at S[v] in  *)
(* 0..T, so its executions are r[v] = (A[v] - S[v]) / T periods late: the     *)
(* graph rebuilt from the schedule must be the retiming of the scheduled      *)
(* graph by r, i.e. connection u -> v has r[v] - r[u] delays more, and output *)
(* o at n + r[o] is what the scheduled graph delivers at n when input i is    *)
(* shifted by r[i] likewise.                                                  *)
EXTENDS Dataflow, TraceBase
VARIABLES tid, l, err, A, T
vars == <<tid, l, err, A, T>>

Tr(t) == Traces[t]
Ops(t) == DOMAIN Tr(t).K
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = ""
         /\ A = <<>> /\ T = 0

(* Absolute start times after edit e, from those before. *)
After(e, s, a, t0) ==
  CASE e.op = "init" -> [v \in DOMAIN s.S |-> s.S[v] + s.T * e.r[v]]
    [] e.op \in {"move", "alap", "asap"} -> [a EXCEPT ![e.v] = @ + e.k]
    [] e.op = "rotf" -> [v \in DOMAIN a |-> a[v] + 1]
    [] e.op = "rotb" -> [v \in DOMAIN a |-> a[v] - 1]
    [] e.op = "time" -> [v \in DOMAIN a |-> LET r == (a[v] - e.S0[v]) \div t0
                                            IN e.S0[v] + r * s.T]
    [] e.op = "inc" -> [v \in DOMAIN a |-> a[v] * e.k]
    [] e.op = "dec" -> [v \in DOMAIN a |-> a[v] \div e.k]
    [] OTHER -> a

Divides(a, s) == \A v \in DOMAIN a : (a[v] - s.S[v]) % s.T = 0
Lap(a, s) == [v \in DOMAIN a |-> (a[v] - s.S[v]) \div s.T]

(* The rebuilt graph has the operations of the scheduled graph, retimed. *)
Retimed(t, r, s) ==
  \A e \in DOMAIN Tr(t).E :
     LET x == Tr(t).E[e]
     IN Tr(t).K[x.u] \notin {"c", "dontcare"} => s.D[e] = x.d + r[x.v] - r[x.u]
(* X[n], n in 1..Len(X), shifted to start r later (zeros elsewhere), from base *)
Shifted(X, r, base, len) ==
  [t \in 1..len |-> [i \in DOMAIN r |->
      LET n == (t - 1) + base - r[i] + 1
      IN IF n \in DOMAIN X THEN X[n][i] ELSE 0]]
SameFunction(t, r, s) ==
  LET g == Tr(t).g  h == s.h  X == s.X
      ri == [i \in DOMAIN Tr(t).ins |-> r[Tr(t).ins[i]]]
      ro == [o \in DOMAIN Tr(t).outs |-> r[Tr(t).outs[o]]]
      all == Range1(ri) \cup Range1(ro) \cup {0}
      base == MinOf(all, 0)
      len == Len(X) + MaxOf(all, 0) - base
      y == Response(g, X)
      z == Response(h, Shifted(X, ri, base, len))
  IN \A n \in DOMAIN X : \A o \in DOMAIN ro :
        z[(n - 1) + ro[o] - base + 1][o] = y[n][o]

(* Fresh schedules: as-soon-as-possible scheduling shifts no input or output, *)
(* as-late-as-possible scheduling may only use inputs later.                  *)
Anchored(t, r, how) ==
  /\ how = "io" => \A i \in Range1(Tr(t).ins) \cup Range1(Tr(t).outs) : r[i] = 0
  /\ how = "o" => /\ \A i \in Range1(Tr(t).outs) : r[i] = 0
                  /\ \A i \in Range1(Tr(t).ins) : r[i] >= 0
Check(t, s, a) ==
  IF ~Divides(a, s) THEN "start times are not where the edit moved them"
  ELSE LET r == Lap(a, s)
       IN IF s.ev.op = "init" /\ ~Anchored(t, r, s.ev.anchor)
          THEN "inputs or outputs of a fresh schedule are shifted"
          ELSE IF Len(s.h.ins) # Len(Tr(t).ins) \/ Len(s.h.outs) # Len(Tr(t).outs)
          THEN "the rebuilt graph has another interface"
          ELSE IF ~OrderOK(s.h) THEN "the rebuilt graph is not well-formed"
          ELSE IF s.bag # Tr(t).bag THEN "the rebuilt graph has other operations"
          ELSE IF s.D # <<>> /\ ~Retimed(t, r, s)
          THEN "the rebuilt graph is not the scheduled graph retimed"
          ELSE IF ~SameFunction(t, r, s)
          THEN "the rebuilt graph computes another function"
          ELSE IF s.h2 # s.h THEN "asking for the graph again gives another one"
          ELSE ""

TNext ==
  /\ err = "" /\ l < Len(Tr(tid).steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ LET s == Tr(tid).steps[l + 1]
     IN /\ A' = After(s.ev, s, A, T)
        /\ T' = s.T
        /\ err' = IF s.chk THEN Check(tid, s, A') ELSE ""
  /\ IF err' # "" THEN Say("VIOL", tid, l', Tr(tid).steps[l'].ev.op \o ": " \o err')
     ELSE IF l' = Len(Tr(tid).steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
