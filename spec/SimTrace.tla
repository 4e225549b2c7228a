------------------------------- MODULE SimTrace ------------------------------
(* Recorded calls on real Simulation objects against the dataflow machine.    *)
EXTENDS Dataflow, TraceBase

VARIABLES tid, l, err,
          it,      \* iteration counter
          st,      \* contents of the delays
          saved,   \* what each saved iteration observed, since the last clear
          out      \* outputs of the last iteration
vars == <<tid, l, err, it, st, saved, out>>

G(t) == Traces[t].g
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = "" /\ it = 0
         /\ st = InitState(G(tid)) /\ saved = <<>> /\ out = <<>>

(* One iteration: inputs of time i, all operations, then all delays at once. *)
Iter(t, s, i, save) ==
  LET g == G(t)
      vals == Values(g, s.st, Traces[t].X[i + 1])
  IN [st |-> NextState(g, vals), out |-> Outs(g, vals),
      saved |-> IF save THEN Append(s.saved, Observed(g, vals)) ELSE s.saved]

RunTo(t, n, save) ==
  FoldLeft(LAMBDA s, i : Iter(t, s, i, save),
           [st |-> st, out |-> out, saved |-> saved],
           [k \in 1..(n - it) |-> it + k - 1])

(* Target iteration of a run call; at the end of the input arrays it stops.   *)
Target(e) ==
  CASE e.op = "step" -> it + 1
    [] e.op = "for" -> it + e.n
    [] e.op = "until" -> e.n
    [] e.op = "run" -> e.n
    [] OTHER -> it
Stop(t, e) == LET x == IF Target(e) < it THEN it ELSE Target(e)
              IN IF x > Traces[t].len THEN Traces[t].len ELSE x

(* Saved results: exactly the observed ports, one value per saved iteration. *)
ResultsOK(g, keys, res, sv) ==
  IF sv = <<>> THEN (IF Cardinality(DOMAIN res) = 0 THEN "" ELSE "results not empty")
  ELSE LET want == UNION {Range1(keys[i]) : i \in DOMAIN g.nodes}
       IN IF ~(want \subseteq DOMAIN res) \/ (Traces[tid].exact /\ DOMAIN res # want)
          THEN "results name the wrong ports"
          ELSE IF \E i \in DOMAIN g.nodes : \E p \in DOMAIN keys[i] :
                     Len(res[keys[i][p]]) # Len(sv)
          THEN "wrong number of saved results"
          ELSE IF \E i \in DOMAIN g.nodes : \E p \in DOMAIN keys[i] :
                     \E n \in DOMAIN sv : res[keys[i][p]][n] # sv[n][i][p]
          THEN "wrong value in the results" ELSE ""

TNext ==
  /\ err = ""
  /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ LET e == Traces[tid].steps[l + 1]
         g == G(tid)
         n == Stop(tid, e)
         r == IF e.op \in {"step", "for", "until", "run"} THEN RunTo(tid, n, e.save)
              ELSE [st |-> st, out |-> out, saved |-> saved]
         moved == n > it
         evalv == IF e.op = "eval"
                  THEN Outs(g, Values(g, InitState(g), e.x)) ELSE <<>>
     IN /\ it' = n
        /\ st' = IF e.op = "clearst" THEN InitState(g) ELSE r.st
        /\ saved' = IF e.op = "clearres" THEN <<>> ELSE r.saved
        /\ out' = r.out
        /\ err' = FirstOf(<<
             IF l = 0 /\ ~OrderOK(g) THEN "the graph is not well-formed" ELSE "",
             IF e.exc # (Target(e) > Traces[tid].len /\ e.op # "eval")
             THEN "call raised (or did not raise) unexpectedly" ELSE "",
             IF e.it # it' THEN "wrong iteration counter" ELSE "",
             IF moved /\ ~e.exc /\ e.ret # r.out THEN "wrong outputs returned" ELSE "",
             IF e.op = "eval" /\ e.ret # evalv THEN "wrong value from direct evaluation" ELSE "",
             IF "res" \in DOMAIN e THEN ResultsOK(g, Traces[tid].keys, e.res, saved') ELSE "">>)
  /\ IF err' # "" THEN Say("VIOL", tid, l', Traces[tid].steps[l'].op \o ": " \o err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
