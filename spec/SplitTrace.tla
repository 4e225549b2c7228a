------------------------------ MODULE SplitTrace ------------------------------
(* Dividing variables by life time: every read belongs to the part for its    *)
(* length, with the same source and start.  Deliveries are records            *)
(* [w source, s start, d destination, L life time]; processes that are no     *)
(* memory variables count as one read at the end of their execution time.     *)
EXTENDS Share, TraceBase
VARIABLES tid, l, err
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
Bag(q) == [x \in Range1(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Verdict(tr, s) ==
  FirstBad(<<
    <<"a read was lost, added or changed", Bag(s.short \o s.long) = Bag(tr.want)>>,
    <<"a long read is in the short part", \A i \in DOMAIN s.short : s.short[i].L <= s.len>>,
    <<"a short read is in the long part", \A i \in DOMAIN s.long : s.long[i].L > s.len>>,
    <<"period or cyclic nature not kept", \A k \in DOMAIN s.T : s.T[k] = tr.T /\ s.cyc[k] = tr.cyc>>
  >>)
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid], Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
