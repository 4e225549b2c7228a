------------------------------- MODULE IdTrace -------------------------------
(* Recorded identities and lookups.  Step kinds:                              *)
(*   "new"   a graph built from components with requests: cs, ids, off        *)
(*   "look"  the lookups of a graph against its components:                   *)
(*           cs[i] = [id, name, t, cls (its classes), op (is it an operation), *)
(*           n (output ports)], and the answers as indices into cs (-1 none)  *)
(*   "same"  a copy has the same components (a and b: tables)                 *)
(*   "gen"   a generator: calls [g, t, ret, off] in order                      *)
EXTENDS Ids, TraceBase
VARIABLES tid, l, err
Once(q, S) == Len(q) = Cardinality(S) /\ Range1(q) = S
Which(cs, P(_)) == {i \in DOMAIN cs : P(cs[i])}
Look(s) ==
  LET cs == s.cs
      Ops == {i \in DOMAIN cs : cs[i].op}
  IN FirstBad(<<
    <<"two components share an identifier", Unique([i \in DOMAIN cs |-> cs[i].id])>>,
    <<"a component has no identifier", \A i \in DOMAIN cs : cs[i].id # "">>,
    <<"find_by_id", \A k \in DOMAIN s.byid : LET q == s.byid[k] IN
        q.ret = MaxOf({i \in DOMAIN cs : cs[i].id = q.key}, -1)>>,
    <<"find_by_name", \A k \in DOMAIN s.byname : LET q == s.byname[k] IN
        Once(q.ret, {i \in DOMAIN cs : cs[i].name = q.key})>>,
    <<"find_by_type_name", \A k \in DOMAIN s.bytn : LET q == s.bytn[k] IN
        Once(q.ret, {i \in DOMAIN cs : cs[i].t = q.key})>>,
    <<"find_by_type", \A k \in DOMAIN s.bycls : LET q == s.bycls[k] IN
        Once(q.ret, {i \in DOMAIN cs : q.key \in Range1(cs[i].cls)})>>,
    <<"components", Range1(s.components) = DOMAIN cs>>,
    <<"operations", Once(s.operations, Ops)>>,
    <<"split", Once(s.split, Ops)>>,
    <<"get_used_graph_ids", Once(s.usedids, {cs[i].id : i \in Ops})>>,
    <<"get_used_type_names", Once(s.usedtn, {cs[i].t : i \in Ops})>>,
    <<"get_used_operation_types", Once(s.usedcls, {cs[i].cls[1] : i \in Ops})>>,
    <<"find_result_keys_by_name", \A k \in DOMAIN s.keys : LET q == s.keys[k] IN
        Once(q.ret, {IF cs[i].n # 1 THEN cs[i].id \o "." \o ToString(q.port) ELSE cs[i].id :
                     i \in {j \in Ops : cs[j].name = q.key}})>>
  >>)
(* A generator: numbers of a type follow each other from the offset on.        *)
Gen(s) ==
  FirstBad(<<
    <<"generated identifiers do not follow each other from the offset",
      \A k \in DOMAIN s.calls :
        LET c == s.calls[k]
            before == {j \in 1..(k - 1) : s.calls[j].g = c.g /\ s.calls[j].t = c.t}
            got == {s.calls[j].ret : j \in before}
            n == CHOOSE n \in c.off..(c.off + Len(s.calls) + Len(c.used)) :
                   /\ Form(c.t, n) \notin (got \cup Range1(c.used))
                   /\ \A m \in c.off..(n - 1) : Form(c.t, m) \in (got \cup Range1(c.used))
        IN c.ret = Form(c.t, n)>>,
    <<"the generator reports another offset", \A k \in DOMAIN s.calls : s.calls[k].rep = s.calls[k].off>>
  >>)
Verdict(s) ==
  CASE s.kind = "new" -> FirstOf(<<Assigned(s.cs, s.ids, s.off),
                                   IF s.rep # s.off THEN "numbering offset not kept" ELSE "">>)
    [] s.kind = "look" -> Look(s)
    [] s.kind = "same" -> IF s.a = s.b THEN "" ELSE "the copy has other components: " \o s.what
    [] s.kind = "gen" -> Gen(s)
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
