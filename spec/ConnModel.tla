----------------------------- MODULE ConnModel -----------------------------
(* All calls in all states with a few ports and signals.  Every state and     *)
(* call is emitted; the driver performs the call in the real code.            *)
EXTENDS Conn, Json
Case == JsonDeserialize("model.json")
VARIABLES st
Init == st = [src |-> <<>>, dst |-> <<>>, nout |-> Case.nout, nin |-> Case.nin]
Outs == 1..Case.nout
Ins == 1..Case.nin
E0 == [a |-> "", s |-> 0, t |-> 0, p |-> 0, q |-> 0, xs |-> <<>>]
Srcs(n) == {[k |-> "out", i |-> p] : p \in Outs} \cup {[k |-> "sig", i |-> s] : s \in n}
           \cup {[k |-> "bad", i |-> 0], [k |-> "none", i |-> 0]}
Calls ==
  LET S == DOMAIN st.src
  IN   {[E0 EXCEPT !.a = x, !.s = s, !.p = p] : x \in {"setsrc", "outadd", "outrm"}, s \in S, p \in Outs}
  \cup {[E0 EXCEPT !.a = x, !.s = s, !.q = q] : x \in {"setdst", "inadd", "inrm", "connsig"}, s \in S, q \in Ins}
  \cup {[E0 EXCEPT !.a = x, !.s = s, !.t = t] : x \in {"setsrcsig", "setdstsig"}, s \in S, t \in S}
  \cup {[E0 EXCEPT !.a = x, !.s = s] : x \in {"rmsrc", "rmdst", "setsrcbad", "setdstbad"}, s \in S}
  \cup {[E0 EXCEPT !.a = "outclr", !.p = p] : p \in Outs}
  \cup {[E0 EXCEPT !.a = x, !.q = q] : x \in {"inclr", "connbad", "newbad"}, q \in Ins}
  \cup {[E0 EXCEPT !.a = "connect", !.p = p, !.q = q] : p \in Outs, q \in Ins}
  \cup {[E0 EXCEPT !.a = "new", !.p = p, !.q = q] : p \in Outs \cup {0}, q \in Ins \cup {0}}
  \cup {[E0 EXCEPT !.a = "delay", !.q = q, !.t = k] : q \in Ins, k \in 0..2}
  \cup {[E0 EXCEPT !.a = "swap", !.p = 1, !.q = 2]}
  \cup {[E0 EXCEPT !.a = "newop", !.xs = <<x>>] : x \in Srcs(S)}
  \cup {[E0 EXCEPT !.a = "newop", !.xs = <<x, y>>] : x \in Srcs(S), y \in Srcs(S)}
Bounded(x) == Len(x.src) <= Case.nsig /\ x.nout = Case.nout /\ x.nin = Case.nin
Next ==
  /\ PrintT("TR|" \o ToJson([st |-> st, calls |-> Calls]))
  /\ \E e \in Calls : LET r == Step(st, e) IN
       IF Bounded(r.st) THEN st' = r.st ELSE UNCHANGED st
Spec == Init /\ [][Next]_st
Agree == OnePerInput(st)
NoEffect == \A e \in Calls : LET r == Step(st, e) IN (r.exc => r.st = st) /\ OnePerInput(r.st)
=============================================================================
