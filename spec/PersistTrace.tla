---------------------------- MODULE PersistTrace ----------------------------
(* A design and the files it was saved to.  A design is a record of what a    *)
(* user sees of it: identifiers, names, parameters, timing and connections;   *)
(* g is the graph it computes with, in the form of Dataflow.  Saving stores   *)
(* the current design, editing changes the current design only, and loading a *)
(* file makes the design that was current when it was saved current again.    *)
EXTENDS Dataflow, TraceBase
VARIABLES tid, l, err, cur, files
vars == <<tid, l, err, cur, files>>

TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = ""
         /\ cur = Traces[tid].d /\ files = [f \in {} |-> cur]

Store(fs, f, d) == [x \in (DOMAIN fs) \cup {f} |-> IF x = f THEN d ELSE fs[x]]

ById(d) == [i \in {n.id : n \in Range1(d.nodes)} |->
              CHOOSE n \in Range1(d.nodes) : n.id = i]
Compare(a, b) ==
  LET A == ById(a)  B == ById(b)
  IN FirstBad(<<
    <<"the name of the graph differs", a.name = b.name>>,
    <<"other identifiers", DOMAIN A = DOMAIN B>>,
    <<"several components with one identifier", Cardinality(DOMAIN B) = Len(b.nodes)>>,
    <<"other types", \A i \in DOMAIN A : i \in DOMAIN B => A[i].k = B[i].k>>,
    <<"other names", \A i \in DOMAIN A : i \in DOMAIN B => A[i].name = B[i].name>>,
    <<"other parameters", \A i \in DOMAIN A : i \in DOMAIN B => A[i].par = B[i].par>>,
    <<"other latencies", \A i \in DOMAIN A : i \in DOMAIN B => A[i].lat = B[i].lat>>,
    <<"other execution times", \A i \in DOMAIN A : i \in DOMAIN B => A[i].ex = B[i].ex>>,
    <<"other connections", \A i \in DOMAIN A : i \in DOMAIN B => A[i].src = B[i].src>>,
    <<"other nested graphs", \A i \in DOMAIN A : i \in DOMAIN B => A[i].sub = B[i].sub>>,
    <<"other inputs or outputs", a.ins = b.ins /\ a.outs = b.outs>>,
    <<"other schedule time", a.T = b.T>>,
    <<"other cyclic nature", a.cyc = b.cyc>>,
    <<"other start times", a.S = b.S>>,
    <<"other laps", a.L = b.L>>,
    <<"other slacks", a.slack = b.slack>>,
    <<"other positions", a.pos = b.pos>>,
    <<"differs", [a EXCEPT !.g = b.g] = b>>
  >>)

TNext ==
  /\ err = ""
  /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ LET e == Traces[tid].steps[l + 1]
     IN CASE e.op = "save" ->     \* the design is left as it was
               /\ files' = Store(files, e.f, cur)
               /\ cur' = e.d
               /\ err' = Compare(cur, e.d)
          [] e.op = "edit" ->
               /\ cur' = e.d /\ files' = files /\ err' = ""
          [] e.op = "load" ->
               /\ cur' = e.d /\ files' = files
               /\ err' = LET c == Compare(files[e.f], e.d)
                         IN IF c # "" THEN c
                            ELSE IF e.X # <<>> /\ Response(files[e.f].g, e.X) # e.y
                            THEN "the loaded design computes another function"
                            ELSE ""
          [] e.op = "lockstep" -> \* the same edit of the saved and the loaded design
               /\ cur' = e.d /\ files' = files
               /\ err' = LET c == Compare(e.d0, e.d)
                         IN IF c # "" THEN c
                            ELSE IF e.X # <<>> /\ Response(e.d0.g, e.X) # e.y
                            THEN "the loaded design computes another function"
                            ELSE ""
  /\ IF err' # "" THEN Say("VIOL", tid, l', Traces[tid].steps[l'].op \o ": " \o err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
