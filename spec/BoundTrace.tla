------------------------------ MODULE BoundTrace ------------------------------
(* Recorded loops, paths and bounds compared with Bound.                      *)
EXTENDS Bound, TraceBase
VARIABLES tid, l, err
LoopsOk(g, s) ==
  LET qs == [k \in DOMAIN s.loops |-> SubSeq(s.loops[k], 1, Len(s.loops[k]) - 1)]
      rs == {RotMin(qs[k]) : k \in DOMAIN qs}
  IN FirstBad(<<
    <<"a loop does not end where it starts",
      \A k \in DOMAIN s.loops : Len(s.loops[k]) > 1 /\ s.loops[k][1] = Last(s.loops[k])>>,
    <<"a loop is listed twice", Cardinality(rs) = Len(qs)>>,
    <<"a loop is missing", AllLoops(g) \subseteq rs>>,
    <<"a listed loop does not exist", rs \subseteq AllLoops(g)>>
  >>)
PathsOk(s) ==
  LET adj == [i \in DOMAIN s.adj |-> Range1(s.adj[i])]
      want == PathsIn(adj, s.a, s.b, DOMAIN adj)
  IN FirstBad(<<
    <<"a path is listed twice", Cardinality(Range1(s.paths)) = Len(s.paths)>>,
    <<"a path is missing", want \subseteq Range1(s.paths)>>,
    <<"a listed path does not exist", Range1(s.paths) \subseteq want>>
  >>)
Verdict(g, s) ==
  CASE s.kind = "loops" -> LoopsOk(g, s)
    [] s.kind = "ipb" -> IF IsBound(g, s.num, s.den) THEN ""
                         ELSE "iteration period bound is not the largest loop quotient"
    [] s.kind = "cp" -> IF s.cp = Critical(g) THEN ""
                        ELSE "critical path is not the longest delay-free chain"
    [] s.kind = "paths" -> PathsOk(s)
    [] s.kind = "rlb" -> IF s.bound = CeilDiv(SumSeq(s.ex), s.T) THEN ""
                         ELSE "resource bound is not the used time over the schedule time"
    [] s.kind = "refuse" -> IF s.exc THEN "" ELSE "resource bound without execution times or time"
    [] s.kind = "count" -> IF \A t \in DOMAIN s.n :
                               s.n[t].c = Cardinality({i \in DOMAIN g : g[i].k = s.n[t].t})
                           THEN "" ELSE "operations counted wrongly"
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid].g, Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
