----------------------------- MODULE TimingTrace -----------------------------
(* What a schedule reports about itself.                                      *)
(*                                                                            *)
(* Everything follows from when operations start (S, T), their latencies and  *)
(* how many iterations (D[e], the delays on the connection in the graph that  *)
(* the schedule computes) later each value is used.  A value is produced at   *)
(* S[u] + lout, used at S[v] + lin + T * D, and the reports are judged by     *)
(* these times, not by the laps the code keeps.                               *)
EXTENDS Sched, TraceBase
VARIABLES tid, l, err
vars == <<tid, l, err>>
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""

Prod(E, s, u, p) == s.S[u] + s.lout[u][p]
Wait(E, s, e) == Usage(E, s, e) + s.T * s.D[e] - Prod(E, s, E[e].u, E[e].p)
Fwd(E, s, v) == MinOf({Wait(E, s, e) : e \in OutE(E, v)}, Inf)
Bwd(E, s, v) == MinOf({Wait(E, s, e) : e \in InE(E, v)}, Inf)

(* One variable per used output: where and when it is written, and read.      *)
Used(E) == {<<E[e].u, E[e].p>> : e \in DOMAIN E}
ReadsOf(E, s, u, p) ==
  {<<E[e].v, E[e].q, Wait(E, s, e)>> : e \in {f \in DOMAIN E : E[f].u = u /\ E[f].p = p}}
Variables(E, s) ==
  {<<up[1], up[2], Prod(E, s, up[1], up[2]) % s.T, ReadsOf(E, s, up[1], up[2])>>
     : up \in Used(E)}
Reported(m) == {<<x.u, x.p, x.w, Range1(x.reads)>> : x \in Range1(m)}

LifeTimes(E, s, m) ==
  \A i \in DOMAIN m :
     /\ m[i].ex = MaxOf({r[3] : r \in ReadsOf(E, s, m[i].u, m[i].p)}, 0)
     /\ Range1(m[i].at) = {m[i].w + r[3] : r \in ReadsOf(E, s, m[i].u, m[i].p)}

Processes(K, s) ==
  {<<v, s.S[v], s.ex[v]>> : v \in {w \in DOMAIN K : K[w] \notin {"dontcare", "sink"}}}

(* Least number of delays from an input to an output, by relaxation.          *)
RECURSIVE Relax(_, _, _, _)
Relax(E, s, d, n) ==
  IF n = 0 THEN d
  ELSE LET d2 == [v \in DOMAIN d |->
             MinOf({d[v]} \cup {d[E[e].u] + s.D[e] : e \in {f \in InE(E, v) : d[E[f].u] # Inf}},
                   Inf)]
       IN IF d2 = d THEN d ELSE Relax(E, s, d2, n - 1)
Dist(K, E, s, i) ==
  Relax(E, s, [v \in DOMAIN K |-> IF v = i THEN 0 ELSE Inf], Len(K))
IOLatency(K, E, s) ==
  UNION {LET d == Dist(K, E, s, i)
         IN {<<i, o, d[o] * s.T + s.S[o] - s.S[i]>>
               : o \in {w \in DOMAIN K : K[w] = "out" /\ d[w] # Inf}}
           : i \in {w \in DOMAIN K : K[w] = "in"}}

EndOf(K, s, v) ==
  IF v \in EndIO(K) THEN s.S[v]
  ELSE MaxOf({s.S[v] + s.lout[v][p] : p \in DOMAIN s.lout[v]}, 0)
NonIOEnd(K, s, some) ==
  MaxOf({0} \cup {s.S[v] + s.lout[v][p] : <<v, p>> \in
     UNION {{<<w, q>> : q \in DOMAIN s.lout[w]} : w \in {x \in DOMAIN K : K[x] \notin some}}}, 0)

Ordered(rows, k) ==
  k = 0 \/ \A i \in 1..(Len(rows) - 1) : rows[i][k + 1] <= rows[i + 1][k + 1]
Printed(K, E, s, x) ==
  /\ Ordered(x.rows, x.order)
  /\ Len(x.rows) = Cardinality(Range1(x.rows))
  /\ Range1(x.rows) = {<<v, Bwd(E, s, v), Fwd(E, s, v)>> :
                         v \in {w \in DOMAIN K : x.kind = "" \/ K[w] = x.kind}}

Verdict(tr, r) ==
  LET K == tr.K  E == tr.E
  IN FirstBad(<<
    <<"forward slack wrong", \A v \in DOMAIN K : r.FS[v] = Fwd(E, r, v)>>,
    <<"backward slack wrong", \A v \in DOMAIN K : r.BS[v] = Bwd(E, r, v)>>,
    <<"printed slacks wrong", Printed(K, E, r, r.print)>>,
    <<"memory variables wrong", /\ Reported(r.mem) = Variables(E, r)
                                /\ Len(r.mem) = Cardinality(Used(E))>>,
    <<"life times of memory variables wrong", LifeTimes(E, r, r.mem)>>,
    <<"operator processes wrong", /\ Range1(r.procs) = Processes(K, r)
                                  /\ Len(r.procs) = Cardinality(Processes(K, r))>>,
    <<"process collections have another period", \A i \in DOMAIN r.per : r.per[i] = r.T>>,
    <<"end time wrong", r.maxend = MaxEnd(K, r)>>,
    <<"end time of operations wrong",
        r.nonio \in {NonIOEnd(K, r, {"out"}), NonIOEnd(K, r, {"out", "in", "sink"})}>>,
    <<"input to output latency wrong", Range1(r.iolat) = IOLatency(K, E, r)>>
  >>)

TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid], Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
