---------------------------- MODULE SchedulerTrace ---------------------------
(* What schedulers deliver for a request.                                     *)
(*                                                                            *)
(* A trace is a graph (K kinds, E edges with d delays, latencies, execution   *)
(* times), a request q and its outcome: an error, or a schedule (T, S) whose  *)
(* connections carry D delays.  Times are judged absolutely: operation v      *)
(* executes at S[v] + T r[v], where r is the retiming that leads from d to D. *)
EXTENDS Sched, TraceBase
VARIABLES tid, l, err
vars == <<tid, l, err>>
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""

Free(K) == {"c", "dontcare"}   \* never delayed
Prod(E, s, u, p) == s.S[u] + s.lout[u][p]
Wait(E, s, e) == Usage(E, s, e) + s.T * s.D[e] - Prod(E, s, E[e].u, E[e].p)

(* --- C04: every schedule ------------------------------------------------- *)
(* Operators of kind k that are busy in slot t (modulo the period).           *)
Slots(s, v) == {(s.S[v] + j) % s.T : j \in 0..(s.ex[v] - 1)}
Busy(K, s, k, t) ==
  SumFn([v \in DOMAIN K |->
           IF K[v] = k
           THEN IF k \in {"in", "out"} THEN (IF s.S[v] % s.T = t THEN 1 ELSE 0)
                ELSE Cardinality({j \in 0..(s.ex[v] - 1) : (s.S[v] + j) % s.T = t})
           ELSE 0], DOMAIN K)
WithinResources(K, s, lim) ==
  \A i \in DOMAIN lim : \A t \in 0..(s.T - 1) : Busy(K, s, lim[i].k, t) <= lim[i].n

(* A value is written if some consumer does not use it immediately; it is     *)
(* read once per time at which it is used later.                              *)
Stored(E, s, u, p) == {e \in DOMAIN E : E[e].u = u /\ E[e].p = p /\ Wait(E, s, e) > 0}
Ports(E) == {<<E[e].u, E[e].p>> : e \in DOMAIN E}
WritesAt(E, s, t) ==
  Cardinality({x \in Ports(E) : Stored(E, s, x[1], x[2]) # {}
                                /\ Prod(E, s, x[1], x[2]) % s.T = t})
ReadsAt(E, s, t) ==
  Cardinality(UNION {{<<x, Wait(E, s, e)>> : e \in {f \in Stored(E, s, x[1], x[2]) :
                        (Prod(E, s, x[1], x[2]) + Wait(E, s, f)) % s.T = t}} : x \in Ports(E)})

At(s, v, t) == (s.S[v] - t) % s.T = 0

Feasible(tr, s) ==
  LET K == tr.K  E == tr.E  q == tr.q
  IN FirstBad(<<
    <<"schedule time not positive", s.T >= 1>>,
    <<"start time outside the period", \A v \in DOMAIN K : s.S[v] >= 0 /\ s.S[v] <= s.T>>,
    <<"negative number of delays", \A e \in DOMAIN E : s.D[e] >= 0>>,
    <<"data used before it is available", \A e \in DOMAIN E : Wait(E, s, e) >= 0>>,
    <<"requested schedule time not honoured", q.T # 0 => s.T = q.T>>,
    <<"requested input time not honoured",
        \A i \in DOMAIN q.tin : At(s, q.tin[i].v, q.tin[i].t)>>,
    <<"requested output time not honoured",
        \A i \in DOMAIN q.tout : At(s, q.tout[i].v, q.tout[i].t)>>,
    <<"requested output distances not honoured",
        \A i, j \in DOMAIN q.dout :
           (s.S[q.dout[i].v] - s.S[q.dout[j].v] - q.dout[i].t + q.dout[j].t) % s.T = 0>>,
    <<"too many operators in use", WithinResources(K, s, q.lim)>>,
    <<"too many concurrent writes",
        q.writes = 0 \/ \A t \in 0..(s.T - 1) : WritesAt(E, s, t) <= q.writes>>,
    <<"too many concurrent reads",
        q.reads = 0 \/ \A t \in 0..(s.T - 1) : ReadsAt(E, s, t) <= q.reads>>
  >>)

(* --- C05: extreme schedules ---------------------------------------------- *)
Zero(E) == {e \in DOMAIN E : E[e].d = 0}
(* Longest paths over connections without delay, from given start times.      *)
RECURSIVE Up(_, _, _, _, _)
Up(E, s, fix, a, n) ==
  IF n = 0 THEN a
  ELSE LET b == [v \in DOMAIN a |->
              IF v \in DOMAIN fix THEN fix[v]
              ELSE MaxOf({0} \cup {a[E[e].u] + s.lout[E[e].u][E[e].p] - s.lin[v][E[e].q]
                                     : e \in {f \in Zero(E) : E[f].v = v}}, 0)]
       IN IF b = a THEN a ELSE Up(E, s, fix, b, n - 1)
Earliest(K, E, s, fix) == Up(E, s, fix, [v \in DOMAIN K |-> 0], Len(K) + 1)
EndAt(K, s, a) ==
  MaxOf({0} \cup UNION {IF v \in EndIO(K) THEN {a[v]}
                        ELSE {a[v] + s.lout[v][p] : p \in DOMAIN s.lout[v]} : v \in DOMAIN K}, 0)

RECURSIVE Down(_, _, _, _, _, _)
Down(K, E, s, fix, a, n) ==
  IF n = 0 THEN a
  ELSE LET b == [v \in DOMAIN a |->
              IF v \in DOMAIN fix THEN fix[v]
              ELSE IF v \in EndIO(K) THEN s.T
              ELSE MinOf({s.T - s.lout[v][p] : p \in DOMAIN s.lout[v]}
                         \cup {a[E[e].v] + s.lin[E[e].v][E[e].q] - s.lout[v][E[e].p]
                                 : e \in {f \in Zero(E) : E[f].u = v}}, s.T)]
       IN IF b = a THEN a ELSE Down(K, E, s, fix, b, n - 1)
Latest(K, E, s, fix) == Down(K, E, s, fix, [v \in DOMAIN K |-> s.T], Len(K) + 1)

FixOf(ts) == [v \in {ts[i].v : i \in DOMAIN ts} |->
                LET i == CHOOSE j \in DOMAIN ts : ts[j].v = v IN ts[i].t]

(* An input used at or past the end of the period belongs to either of two    *)
(* iterations; such connections are not judged.                               *)
Clear(K, E, s, e) == K[E[e].u] # "in" \/ Usage(E, s, e) < s.T
Retimes(K, E, s, r) == \A e \in DOMAIN E : (K[E[e].u] \notin Free(K) /\ Clear(K, E, s, e)) =>
                           s.D[e] = E[e].d + r[E[e].v] - r[E[e].u]
Abs(s, r) == [v \in DOMAIN r |-> s.S[v] + s.T * r[v]]

AsapOK(tr, s) ==
  LET K == tr.K  E == tr.E  q == tr.q
      early == Earliest(K, E, s, FixOf(q.tin))
      a == Abs(s, s.r)
  IN FirstBad(<<
    <<"not a retiming of the graph", Retimes(K, E, s, s.r)>>,
    <<"operation does not start at its earliest time",
        \A v \in DOMAIN K : K[v] \in {"out", "dontcare"} \/ a[v] = early[v]>>,
    <<"output is not placed at its earliest time",
        q.dout # <<>> \/ \A v \in DOMAIN K : K[v] # "out" \/ a[v] = early[v]
           \/ \E e \in InE(E, v) : E[e].d > 0>>,
    <<"the period is not the shortest", q.T = 0 => s.T = EndAt(K, s, a)>>
  >>)
(* No input starts at T: one whose latest time is T or later is exempt.       *)
Lower(tr, s, r) ==
  LET late == Latest(tr.K, tr.E, s, FixOf(tr.q.tin \o s.fixo))
  IN \A v \in DOMAIN tr.K : \/ tr.K[v] = "dontcare"
                             \/ (tr.K[v] = "in" /\ (late[v] >= s.T \/ \E e \in OutE(tr.E, v) : ~Clear(tr.K, tr.E, s, e)))
                             \/ Abs(s, r)[v] >= late[v]
NoDelays(E) == \A e \in DOMAIN E : E[e].d = 0
Exactly(tr, s, r) ==
  LET late == Latest(tr.K, tr.E, s, FixOf(tr.q.tin \o s.fixo))
  IN \A v \in DOMAIN tr.K : \/ tr.K[v] = "dontcare"
                             \/ (tr.K[v] = "in" /\ (late[v] >= s.T \/ \E e \in OutE(tr.E, v) : ~Clear(tr.K, tr.E, s, e)))
                             \/ Abs(s, r)[v] = late[v]
AlapOK(tr, s) ==
  LET K == tr.K  E == tr.E  q == tr.q
  IN FirstBad(<<
    <<"not a retiming of the graph", Retimes(K, E, s, s.r)>>,
    <<"output is not placed at the end",
        s.fixo # <<>> \/ \A v \in DOMAIN K : K[v] = "out" => Abs(s, s.r)[v] = s.T>>,
    <<"operation starts before its latest time", Lower(tr, s, s.r)>>,
    <<"operation does not start at its latest time", NoDelays(E) => Exactly(tr, s, s.r)>>,
    <<"the period is not the shortest",
        (q.T = 0 /\ s.fixo = <<>>) => s.T = EndAt(K, s, Earliest(K, E, s, FixOf(q.tin)))>>
  >>)

(* One operation moved as far as possible: to the first connection that binds *)
(* it, or to the border of the period if none does.                           *)
Fwd(E, s, v) == LET f == MinOf({Wait(E, s, e) : e \in OutE(E, v)}, Inf)
                IN IF f = Inf THEN s.T - s.S[v] ELSE f
Bwd(E, s, v) == LET b == MinOf({Wait(E, s, e) : e \in InE(E, v)}, Inf)
                IN IF b = Inf THEN s.S[v] ELSE b
Moved(tr, s, t, ev) ==
  LET E == tr.E  v == ev.v
      k == IF ev.op = "alap" THEN Fwd(E, s, v) ELSE -Bwd(E, s, v)
  IN FirstBad(<<
    <<"period changed by a move", t.T = s.T>>,
    <<"operation did not stop at the first constraint",
        /\ \/ (t.S[v] - s.S[v] - k) % s.T = 0
           \/ \E e \in DOMAIN E : E[e].u = v /\ ~(Clear(tr.K, E, s, e) /\ Clear(tr.K, E, t, e))
        /\ \A e \in {f \in DOMAIN E : Clear(tr.K, E, s, f) /\ Clear(tr.K, E, t, f)} : Wait(E, t, e) = Wait(E, s, e)
              + (IF E[e].v = v THEN k ELSE 0) - (IF E[e].u = v THEN k ELSE 0)>>,
    <<"another operation moved", \A w \in DOMAIN tr.K \ {v} : t.S[w] = s.S[w]>>
  >>)

(* Requests without limits that can be met must be met; others must not.      *)
Outcome(tr, s) ==
  LET q == tr.q
      need == EndAt(tr.K, s, Earliest(tr.K, tr.E, s, FixOf(q.tin)))
  IN IF s.exc
     THEN IF q.must /\ (q.T = 0 \/ q.T >= need) THEN "a request that can be met failed" ELSE ""
     ELSE IF q.strict /\ q.T # 0 /\ q.T < need
          THEN "a schedule time that is too short was accepted" ELSE ""

Verdict(tr, k) ==
  LET s == tr.steps[k]
  IN IF k = 1
     THEN FirstOf(<<Outcome(tr, s),
                    IF s.exc THEN ""
                    ELSE FirstOf(<<Feasible(tr, s),
                       IF tr.prop # "C05" THEN ""
                       ELSE IF tr.q.name = "ASAP" THEN AsapOK(tr, s) ELSE AlapOK(tr, s)>>)>>)
     ELSE Moved(tr, tr.steps[k - 1], s, s.ev)

TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid], l + 1)
  /\ IF err' # "" THEN Say("VIOL", tid, l', Traces[tid].q.name \o ": " \o err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
