------------------------------ MODULE ShareTrace ------------------------------
(* Splitting of process collections, judged by Share.                         *)
EXTENDS Share, TraceBase
VARIABLES tid, l, err
vars == <<tid, l, err>>
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""

Small == 5
Conf(P, T, kind, n) ==
  {<<i, j>> \in (DOMAIN P) \X (DOMAIN P) : i < j /\
     IF kind = "time" THEN Overlap(P[i], P[j], T)
     ELSE ~FitsPorts(<<P[i], P[j]>>, T, 1, 1, n)}
Table(f, T) == [t \in 1..T |-> f[t - 1]]

Parts(tr, s) ==
  FirstBad(<<
    <<"not a partition of the processes", IsPartition(s.parts, DOMAIN tr.P)>>,
    <<"period not kept", \A k \in DOMAIN s.T : s.T[k] = tr.T>>,
    <<"cyclic nature not kept", \A k \in DOMAIN s.cyc : s.cyc[k] = tr.cyc>>,
    <<"limit on the number of parts exceeded", s.limit = 0 \/ Len(s.parts) <= s.limit>>
  >>)

(* --- C06 ------------------------------------------------------------------ *)
TimeFacts(tr) ==
  LET P == tr.P  T == tr.T
  IN FirstBad(<<
    <<"conflicts between processes reported wrongly",
        {<<c[1], c[2]>> : c \in Range1(tr.conf)} = Conf(P, T, "time", 0)>>,
    <<"usage per cycle reported wrongly",
        \A t \in 0..(T - 1) : tr.use[t + 1] = Use(P, T, t)>>,
    <<"bound on the number of units is wrong", tr.bound = MaxUse(P, T)>>
  >>)
TimeSplit(tr, s) ==
  LET P == tr.P  T == tr.T
      conf == Conf(P, T, "time", 0)
      long == \E i \in DOMAIN P : P[i].ex > T
      small == Len(P) <= Small
  IN IF s.exc
     THEN IF long \/ (s.limit # 0 /\ small /\ ~Colourable(DOMAIN P, conf, s.limit))
             \/ (s.limit # 0 /\ ~small)
          THEN "" ELSE "a split that is possible was rejected"
     ELSE FirstOf(<<
       IF long THEN "a process longer than the period was placed in a unit" ELSE "",
       Parts(tr, s),
       FirstBad(<<
         <<"two processes of a part are active in the same cycle",
             \A k \in DOMAIN s.parts : \A t \in 0..(T - 1) : Use(Sub(P, s.parts[k]), T, t) <= 1>>,
         <<"fewer parts than the bound", tr.bound <= Len(s.parts)>>,
         <<"the optimal strategy does not give the fewest parts",
             (s.opt /\ small) => (Len(s.parts) = 1
                                  \/ ~Colourable(DOMAIN P, conf, Len(s.parts) - 1))>>
       >>)>>)

(* --- C07 ------------------------------------------------------------------ *)
PortFacts(tr) ==
  LET P == tr.P  T == tr.T
      W == [t \in 0..(T - 1) |-> WritesAt(P, T, t)]
      R == [t \in 0..(T - 1) |-> ReadsAt(P, T, t)]
      A == [t \in 0..(T - 1) |-> W[t] + R[t]]
  IN FirstBad(<<
    <<"write accesses reported wrongly", tr.wa = Table(W, T)>>,
    <<"read accesses reported wrongly", tr.ra = Table(R, T)>>,
    <<"total accesses reported wrongly", tr.ta = Table(A, T)>>,
    <<"bound on the write ports is wrong", tr.wb = MaxOf(Range1(W), 0)>>,
    <<"bound on the read ports is wrong", tr.rb = MaxOf(Range1(R), 0)>>,
    <<"bound on the total ports is wrong", tr.tb = MaxOf(Range1(A), 0)>>
  >>)
Excl(tr, s) ==
  LET P == tr.P  T == tr.T
      own == \E i \in DOMAIN P : ~FitsPorts(<<P[i]>>, T, 1, 1, s.n)
  IN IF s.exc THEN IF own THEN "" ELSE "conflict graph refused"
     ELSE IF own THEN "conflict graph of a variable that fits no memory"
     ELSE IF {<<c[1], c[2]>> : c \in Range1(s.conf)} = Conf(P, T, "port", s.n) THEN ""
     ELSE "port conflicts reported wrongly"
PortSplit(tr, s) ==
  LET P == tr.P  T == tr.T
      own == \E i \in DOMAIN P : ~FitsPorts(<<P[i]>>, T, s.r, s.w, s.n)
      small == Len(P) <= Small
      graph == s.graph
  IN IF s.exc
     THEN IF (graph /\ (own \/ ~(s.r = 1 /\ s.w = 1)))
             \/ (s.limit # 0 /\ ~(small /\ Colourable(DOMAIN P, Conf(P, T, "port", s.n), s.limit)))
          THEN "" ELSE "a split that is possible was rejected"
     ELSE FirstOf(<<
       Parts(tr, s),
       FirstBad(<<
         <<"a part needs more ports than it has",
             \A k \in DOMAIN s.parts :
               LET Q == Sub(P, s.parts[k])
               IN IF graph THEN FitsPorts(Q, T, s.r, s.w, s.n)
                  ELSE FitsAlone(Q, T, s.r, s.w, s.n, tr.strict)>>,
         <<"fewer ports than the bounds",
            (graph \/ tr.strict) =>
             /\ tr.wb <= s.w * Len(s.parts)
             /\ tr.rb <= s.r * Len(s.parts)
             /\ tr.tb <= s.n * Len(s.parts)>>,
         <<"the optimal strategy does not give the fewest parts",
             (s.opt /\ small) => (Len(s.parts) = 1 \/
                 ~Colourable(DOMAIN P, Conf(P, T, "port", s.n), Len(s.parts) - 1))>>
       >>)>>)

Verdict(tr, k) ==
  LET s == tr.steps[k]
      first == IF k # 1 THEN ""
               ELSE IF tr.kind = "time" THEN TimeFacts(tr) ELSE PortFacts(tr)
      txt == FirstOf(<<first,
               CASE s.op = "split" /\ tr.kind = "time" -> TimeSplit(tr, s)
                 [] s.op = "split" /\ tr.kind = "port" -> PortSplit(tr, s)
                 [] s.op = "memory" ->
                      IF s.exc = ~FitsPorts(tr.P, tr.T, s.r, s.w, s.n) THEN ""
                      ELSE "memory with too few ports accepted, or with enough refused"
                 [] s.op = "excl" -> Excl(tr, s)
                 [] OTHER -> "">>)
  IN IF txt = "" THEN "" ELSE s.name \o ": " \o txt

TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid], l + 1)
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
