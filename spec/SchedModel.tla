------------------------------ MODULE SchedModel -----------------------------
(* Design model: schedules of small graphs under all edits, exhaustively.     *)
(* The representation of a reached state (laps, Output at 0 or at T) is       *)
(* computed from the time distances, which are the abstract state.            *)
EXTENDS Sched, Json

Cases == JsonDeserialize("model.json")   \* K, E, cyc, init state, Tmax, ring
VARIABLES c, s, last
vars == <<c, s, last>>
View == <<c, s>>

K == Cases[c].K
E == Cases[c].E
St(r) == [T |-> r.T, S |-> r.S, L |-> r.L, lin |-> r.lin, lout |-> r.lout, ex |-> r.ex]

Init == c \in DOMAIN Cases /\ s = St(Cases[c].init) /\ last = [op |-> "init"]

(* Given start times and gaps, the unique laps. *)
WithGaps(t, g) ==
  [t EXCEPT !.L = [e \in Edges(E) |->
      (g[e] + AvailM(E, t, e) - Usage(E, t, e)) \div t.T]]
(* Outputs sit at the schedule time rather than at 0 when their data is from  *)
(* the previous period.                                                       *)
WrapOut(t, W) ==
  LET mv == {v \in W : K[v] \in {"out", "sink"} /\ t.S[v] = 0
                       /\ \A e \in InE(E, v) : t.L[e] > 0}
  IN [t EXCEPT !.S = [v \in Nodes(t) |-> IF v \in mv THEN t.T ELSE t.S[v]],
               !.L = [e \in Edges(E) |-> IF E[e].v \in mv THEN t.L[e] - 1 ELSE t.L[e]]]

Gaps(t) == [e \in Edges(E) |-> Gap(E, t, e)]
Moved(v, k) ==
  LET t == [s EXCEPT !.S[v] = (s.S[v] + k) % s.T]
      g == [e \in Edges(E) |-> Gap(E, s, e) + (IF E[e].v = v THEN k ELSE 0)
                                            - (IF E[e].u = v THEN k ELSE 0)]
  IN WrapOut(WithGaps(t, g), {v})
RotatedBy(k) ==
  LET t == [s EXCEPT !.S = [v \in Nodes(s) |-> (s.S[v] + k) % s.T]]
  IN WrapOut(WithGaps(t, Gaps(s)), Nodes(s))

Within(x, m) == IF x = Inf THEN m ELSE x

Move == \E v \in Nodes(s), k \in (-Cases[c].R)..Cases[c].R :
          /\ k # 0 /\ LegalMove(E, s, v, k)
          /\ s' = Moved(v, k) /\ last' = [op |-> "move", v |-> v, k |-> k] /\ c' = c
RotF == Cases[c].cyc /\ s' = RotatedBy(1) /\ last' = [op |-> "rotf", v |-> 0, k |-> 0] /\ c' = c
RotB == Cases[c].cyc /\ s' = RotatedBy(-1) /\ last' = [op |-> "rotb", v |-> 0, k |-> 0] /\ c' = c
SetTime == \E k \in 1..Cases[c].Tmax :
          /\ k # s.T /\ LegalTime(K, s, k)
          /\ LET t == [s EXCEPT !.T = k, !.S = [v \in Nodes(s) |->
                                 IF K[v] = "in" /\ s.S[v] = k THEN 0 ELSE s.S[v]]]
             IN s' = WithGaps(t, [e \in Edges(E) |->
                                    Gap(E, s, e) + (k - s.T) * D(E, s, e)])
          /\ last' = [op |-> "time", v |-> 0, k |-> k] /\ c' = c
Next == Move \/ RotF \/ RotB \/ SetTime

Spec == Init /\ [][Next]_vars

Bound == \A e \in Edges(E) : D(E, s, e) <= Cases[c].Dmax

(* The invariants of the design. *)
ValidState == Valid(K, E, s) = ""
(* Around every loop the number of delays is what it was in the graph: the    *)
(* schedule is a retiming, hence computes the same function.                  *)
Loops == Cases[c].loops
LoopDelays == \A i \in DOMAIN Loops :
  SumSeq([j \in DOMAIN Loops[i] |-> D(E, s, Loops[i][j])])
    = SumSeq([j \in DOMAIN Loops[i] |-> D(E, St(Cases[c].init), Loops[i][j])])
(* The time around a loop is its delays times the period. *)
LoopTime == \A i \in DOMAIN Loops :
  SumSeq([j \in DOMAIN Loops[i] |->
     Gap(E, s, Loops[i][j]) + s.lout[E[Loops[i][j]].u][E[Loops[i][j]].p]
       - s.lin[E[Loops[i][j]].v][E[Loops[i][j]].q]])
    = s.T * SumSeq([j \in DOMAIN Loops[i] |-> D(E, s, Loops[i][j])])

(* Every explored transition satisfies the relation used on recorded traces.  *)
Refines == Assert(EditVerdict(K, E, Cases[c].cyc, s, s',
                [op |-> last'.op, v |-> last'.v, k |-> last'.k, exc |-> FALSE]) = "",
                <<"transition outside the relation", s, last', s'>>)

Hash == SumSeq(s.S) * 11 + SumSeq(s.L) * 13 + s.T * 5 + last'.v * 7 + last'.k * 3
Emit == IF Cases[c].emit > 0 /\ Hash % Cases[c].emit = 0
        THEN PrintT("TR|" \o ToJson([c |-> c, T |-> s.T, S |-> s.S, L |-> s.L, ev |-> last']))
        ELSE TRUE
=============================================================================
