-------------------------------- MODULE Sched --------------------------------
(* The schedule of a signal flow graph as a state machine.                    *)
(*                                                                            *)
(* A state s is a record                                                      *)
(*   T      schedule time (period)                                            *)
(*   S      start time of every node (sequence, 0..T)                         *)
(*   L      laps of every edge (sequence)                                     *)
(*   lin    latency offset of every input port of every node                  *)
(*   lout   latency offset of every output port of every node                 *)
(*   ex     execution time of every node                                      *)
(* and E is the sequence of edges [u, p, v, q] (output p of u feeds input q   *)
(* of v, ports counted from 1); K gives the kind of every node.               *)
EXTENDS Common

Avail(E, s, e)  == s.S[E[e].u] + s.lout[E[e].u][E[e].p]
Over(E, s, e)   == Avail(E, s, e) > s.T
AvailM(E, s, e) == Avail(E, s, e) - (IF Over(E, s, e) THEN s.T ELSE 0)
Usage(E, s, e)  == s.S[E[e].v] + s.lin[E[e].v][E[e].q]

(* time between availability and use of the data on edge e *)
Gap(E, s, e) == Usage(E, s, e) + s.T * s.L[e] - AvailM(E, s, e)
(* number of iterations between production and use *)
D(E, s, e) == s.L[e] + (IF Over(E, s, e) THEN 1 ELSE 0)

Edges(E) == DOMAIN E
Nodes(s) == DOMAIN s.S
InE(E, v)  == {e \in Edges(E) : E[e].v = v}
OutE(E, v) == {e \in Edges(E) : E[e].u = v}

FSlack(E, s, v) == MinOf({Gap(E, s, e) : e \in OutE(E, v)}, Inf)
BSlack(E, s, v) == MinOf({Gap(E, s, e) : e \in InE(E, v)}, Inf)

EndIO(K) == {v \in DOMAIN K : K[v] \in {"out", "sink"}}
MaxEnd(K, s) ==
  MaxOf({0} \cup
        UNION {IF v \in EndIO(K) THEN {s.S[v]}
               ELSE {s.S[v] + s.lout[v][p] : p \in DOMAIN s.lout[v]} : v \in Nodes(s)}, 0)

ScaledNode(K, v) == K[v] \notin {"in", "out", "c", "sink", "dontcare"}

(***************************** state invariants *****************************)
Valid(K, E, s) ==
  FirstBad(<<
    <<"start time outside the period",
        \A v \in Nodes(s) : s.S[v] >= 0 /\ s.S[v] <= s.T>>,
    <<"operation starts at the schedule time",
        \A v \in Nodes(s) : s.S[v] = s.T => K[v] \in {"out", "sink", "dontcare"}
                        \/ (K[v] = "in" /\ \E e \in OutE(E, v) : s.L[e] = 0)
                        \/ (K[v] # "in" /\ \A p \in DOMAIN s.lout[v] : s.lout[v][p] = 0)>>,
    <<"negative laps", \A e \in Edges(E) : s.L[e] >= 0>>,
    <<"data used before it is available", \A e \in Edges(E) : Gap(E, s, e) >= 0>>
  >>)

SlacksReported(E, s, FS, BS) ==
  FirstBad(<<
    <<"forward slack reported wrongly", \A v \in Nodes(s) : FS[v] = FSlack(E, s, v)>>,
    <<"backward slack reported wrongly", \A v \in Nodes(s) : BS[v] = BSlack(E, s, v)>>
  >>)

SameTiming(s, t) == s.lin = t.lin /\ s.lout = t.lout
SameAll(s, t) == s = t

(******************************** legality **********************************)
LegalMove(E, s, v, k) == -BSlack(E, s, v) <= k /\ k <= FSlack(E, s, v)
LegalTime(K, s, t) == t >= MaxEnd(K, s)
AllTimes(K, s) ==
  {s.T} \cup Range1(s.S)
  \cup UNION {{s.ex[v]} \cup Range1(s.lin[v]) \cup Range1(s.lout[v])
              : v \in {w \in Nodes(s) : ScaledNode(K, w)}}
Decrements(K, s) == {f \in 1..s.T : \A x \in AllTimes(K, s) : x % f = 0}

AlapDist(E, s, v) == LET f == FSlack(E, s, v) IN IF f = Inf THEN s.T - s.S[v] ELSE f
AsapDist(E, s, v) == LET b == BSlack(E, s, v) IN IF b = Inf THEN -s.S[v] ELSE -b

(* Matching the argument of a latency/execution-time change. *)
Sel(K, ev) == {v \in DOMAIN K : K[v] = ev.x}
LatGap(K, E, s, e, ev) ==
  Gap(E, s, e)
    - (IF E[e].u \in Sel(K, ev) THEN ev.k - s.lout[E[e].u][E[e].p] ELSE 0)
    - (IF E[e].v \in Sel(K, ev) THEN s.lin[E[e].v][E[e].q] ELSE 0)

Legal(K, E, cyc, s, ev) ==
  CASE ev.op = "move" -> ev.v # 0 /\ (ev.k = 0 \/ LegalMove(E, s, ev.v, ev.k))
    [] ev.op = "alap" -> TRUE
    [] ev.op = "asap" -> TRUE
    [] ev.op = "rotf" -> cyc
    [] ev.op = "rotb" -> cyc
    [] ev.op = "time" -> LegalTime(K, s, ev.k)
    [] ev.op = "inc"  -> TRUE
    [] ev.op = "dec"  -> ev.k \in Decrements(K, s)
    [] ev.op = "exec" -> TRUE
    [] ev.op = "lat"  -> \A e \in Edges(E) : LatGap(K, E, s, e, ev) >= 0
    [] ev.op = "query" -> TRUE

(**************************** effect of an edit *****************************)
MoveBy(K, E, s, t, v, k) ==
  FirstBad(<<
    <<"schedule time changed by a move", t.T = s.T>>,
    <<"latencies changed by a move", SameTiming(s, t) /\ s.ex = t.ex>>,
    <<"moved operation not at its new place", (t.S[v] - (s.S[v] + k)) % s.T = 0>>,
    <<"another operation moved", \A w \in Nodes(s) \ {v} : t.S[w] = s.S[w]>>,
    <<"time distance of a signal changed wrongly by a move",
        \A e \in Edges(E) :
          Gap(E, t, e) = Gap(E, s, e) + (IF E[e].v = v THEN k ELSE 0)
                                      - (IF E[e].u = v THEN k ELSE 0)>>
  >>)

Rotated(K, E, s, t, k) ==
  FirstBad(<<
    <<"schedule time changed by a rotation", t.T = s.T>>,
    <<"latencies changed by a rotation", SameTiming(s, t) /\ s.ex = t.ex>>,
    <<"start time not rotated",
        \A v \in Nodes(s) : (t.S[v] - (s.S[v] + k)) % s.T = 0>>,
    <<"time distance of a signal changed by a rotation",
        \A e \in Edges(E) : Gap(E, t, e) = Gap(E, s, e)>>
  >>)

TimeSet(K, E, s, t, k) ==
  FirstBad(<<
    <<"schedule time not set", t.T = k>>,
    <<"start times changed by setting the schedule time",
        \A v \in Nodes(s) : \/ t.S[v] = s.S[v]
                            \/ K[v] = "in" /\ s.S[v] = k /\ t.S[v] = 0>>,
    <<"latencies changed by setting the schedule time", SameTiming(s, t) /\ s.ex = t.ex>>,
    <<"time distance wrong after setting the schedule time",
        \A e \in Edges(E) : Gap(E, t, e) = Gap(E, s, e) + (t.T - s.T) * D(E, s, e)>>
  >>)

Scale(x, f, up) == IF up THEN x * f ELSE x \div f
Rescaled(K, E, s, t, f, up) ==
  FirstBad(<<
    <<"schedule time not scaled", t.T = Scale(s.T, f, up)>>,
    <<"start times not scaled", \A v \in Nodes(s) : t.S[v] = Scale(s.S[v], f, up)>>,
    <<"laps changed by scaling", t.L = s.L>>,
    <<"latency offsets not scaled",
        \A v \in Nodes(s) :
          IF ScaledNode(K, v)
          THEN /\ \A p \in DOMAIN s.lin[v] : t.lin[v][p] = Scale(s.lin[v][p], f, up)
               /\ \A p \in DOMAIN s.lout[v] : t.lout[v][p] = Scale(s.lout[v][p], f, up)
          ELSE t.lin[v] = s.lin[v] /\ t.lout[v] = s.lout[v]>>,
    <<"execution times not scaled",
        \A v \in Nodes(s) :
          t.ex[v] = IF ScaledNode(K, v) THEN Scale(s.ex[v], f, up) ELSE s.ex[v]>>
  >>)

ExecSet(K, E, s, t, ev) ==
  FirstBad(<<
    <<"execution time change altered the timing",
        [t EXCEPT !.ex = s.ex] = s>>,
    <<"execution times wrong",
        \A v \in Nodes(s) : t.ex[v] = IF v \in Sel(K, ev) THEN ev.k ELSE s.ex[v]>>
  >>)

LatSet(K, E, s, t, ev) ==
  FirstBad(<<
    <<"latency change altered start times or period", t.S = s.S /\ t.T = s.T /\ t.ex = s.ex>>,
    <<"latency not set",
        \A v \in Nodes(s) :
          IF v \in Sel(K, ev)
          THEN /\ \A p \in DOMAIN s.lout[v] : t.lout[v][p] = ev.k
               /\ \A p \in DOMAIN s.lin[v] : t.lin[v][p] = 0
          ELSE t.lin[v] = s.lin[v] /\ t.lout[v] = s.lout[v]>>,
    <<"time distance wrong after a latency change",
        \A e \in Edges(E) : Gap(E, t, e) = LatGap(K, E, s, e, ev)>>,
    <<"iteration distance changed by a latency change",
        \A e \in Edges(E) : D(E, t, e) = D(E, s, e)>>
  >>)

Effect(K, E, s, t, ev) ==
  CASE ev.op = "move" -> MoveBy(K, E, s, t, ev.v, ev.k)
    [] ev.op = "alap" -> MoveBy(K, E, s, t, ev.v, AlapDist(E, s, ev.v))
    [] ev.op = "asap" -> MoveBy(K, E, s, t, ev.v, AsapDist(E, s, ev.v))
    [] ev.op = "rotf" -> Rotated(K, E, s, t, 1)
    [] ev.op = "rotb" -> Rotated(K, E, s, t, -1)
    [] ev.op = "time" -> TimeSet(K, E, s, t, ev.k)
    [] ev.op = "inc"  -> Rescaled(K, E, s, t, ev.k, TRUE)
    [] ev.op = "dec"  -> Rescaled(K, E, s, t, ev.k, FALSE)
    [] ev.op = "exec" -> ExecSet(K, E, s, t, ev)
    [] ev.op = "lat"  -> LatSet(K, E, s, t, ev)
    [] ev.op = "query" -> IF s = t THEN "" ELSE "a query changed the schedule"

(* The transition relation as a named verdict. *)
EditVerdict(K, E, cyc, s, t, ev) ==
  IF ev.exc
  THEN IF Legal(K, E, cyc, s, ev) THEN "legal edit rejected"
       ELSE IF s # t THEN "rejected edit changed the schedule" ELSE ""
  ELSE IF ~Legal(K, E, cyc, s, ev) THEN "illegal edit accepted"
       ELSE LET x == Effect(K, E, s, t, ev)
            IN IF x # "" THEN x ELSE Valid(K, E, t)
=============================================================================
