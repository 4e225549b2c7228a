------------------------------ MODULE ConnTrace ------------------------------
(* Recorded connection calls: after every call, both ends as observed in the  *)
(* code are those of the state the call leads to.  Trace kinds:               *)
(*   "each"  every step is a call from the state tr.st                        *)
(*   "hist"  the steps follow each other, the first from tr.st                *)
(*   "graph" steps are observations of the ports and signals of whole graphs  *)
(* An observation has src, dst (ports per signal, 0 none, -1 unknown), outs   *)
(* and ins (signals listed per port), fed (source port per input port), prec  *)
(* and succ (operations before and after every operation), own (ports per     *)
(* operation).                                                                *)
EXTENDS Conn, TraceBase
VARIABLES tid, l, st, err
vars == <<tid, l, st, err>>
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
SameBag(q, S) == Len(q) = Cardinality(S) /\ Range1(q) = S
Bag(q) == [x \in Range1(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
OpOfOut(ops, p) == CHOOSE i \in DOMAIN ops : p \in Range1(ops[i].o)
OpOfIn(ops, q) == CHOOSE i \in DOMAIN ops : q \in Range1(ops[i].i)
Flat(f, seq) == FoldLeft(LAMBDA a, x : a \o f[x], <<>>, seq)
Agrees(s, o) ==
  FirstBad(<<
    <<"signals appeared or are missing", Len(o.src) = Len(s.src) /\ o.extra = 0>>,
    <<"ports appeared or are missing", Len(o.outs) = s.nout /\ Len(o.ins) = s.nin>>,
    <<"a signal names another source", o.src = s.src>>,
    <<"a signal names another destination", o.dst = s.dst>>,
    <<"an output port does not list exactly its signals",
      \A p \in DOMAIN o.outs : SameBag(o.outs[p], OutList(s, p))>>,
    <<"an input port does not list exactly its signal",
      \A q \in DOMAIN o.ins : SameBag(o.ins[q], InSig(s, q))>>,
    <<"connected source is not the source of the signal",
      \A q \in DOMAIN o.fed : o.fed[q] = MaxOf({s.src[x] : x \in InSig(s, q)}, 0)>>,
    <<"preceding operations are not those feeding the inputs",
      \A i \in DOMAIN o.ops :
        Bag(o.ops[i].prec) =
          Bag(LET qs == {<<q, x>> \in Range1(o.ops[i].i) \X DOMAIN s.src :
                          s.dst[x] = q /\ s.src[x] # 0}
              IN [k \in 1..Cardinality(qs) |->
                   OpOfOut(o.ops, s.src[SetToSeq(qs)[k][2]])])>>,
    <<"subsequent operations are not those fed by the outputs",
      \A i \in DOMAIN o.ops :
        Bag(o.ops[i].succ) =
          Bag(LET qs == {x \in DOMAIN s.src : s.src[x] \in Range1(o.ops[i].o) /\ s.dst[x] # 0}
              IN [k \in 1..Cardinality(qs) |->
                   OpOfIn(o.ops, s.dst[SetToSeq(qs)[k]])])>>
  >>)
Call(s, e) ==
  LET r == Step(s, e) IN
  FirstOf(<<
    IF e.exc # r.exc THEN IF r.exc THEN "an inadmissible call was accepted"
                          ELSE "an admissible call was rejected" ELSE "",
    LET a == Agrees(r.st, e.obs) IN
      IF a = "" THEN "" ELSE (IF r.exc THEN "after a rejected call: " ELSE "") \o a,
    IF ~r.exc /\ e.ret # r.ret THEN "the call returned something else" ELSE ""
  >>)
(* Whole graphs: both ends agree and nothing leads out of the graph.           *)
Graph(o) ==
  FirstBad(<<
    <<"a signal leads out of the graph", \A s \in DOMAIN o.src : o.src[s] > 0 /\ o.dst[s] > 0>>,
    <<"an input port does not have exactly one signal", \A q \in DOMAIN o.ins : Len(o.ins[q]) = 1>>,
    <<"a port lists a signal that names another port, or misses one",
      /\ \A p \in DOMAIN o.outs : SameBag(o.outs[p], {s \in DOMAIN o.src : o.src[s] = p})
      /\ \A q \in DOMAIN o.ins : SameBag(o.ins[q], {s \in DOMAIN o.dst : o.dst[s] = q})>>,
    <<"the original was changed", o.orig>>
  >>)
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = ""
         /\ st = Traces[tid].st
TNext ==
  LET tr == Traces[tid]
      e == tr.steps[l + 1]
  IN
  /\ err = "" /\ l < Len(tr.steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = IF tr.kind = "graph" THEN Graph(e)
            ELSE Call(st, e)
  /\ st' = IF tr.kind = "hist" THEN Step(st, e).st ELSE st
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(tr.steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
