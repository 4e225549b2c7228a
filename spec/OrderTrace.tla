------------------------------ MODULE OrderTrace ------------------------------
(* Recorded precedence lists, topological orders and required inputs.         *)
(* g: nodes [k, src, n (output ports)]; ins, outs: nodes.                      *)
EXTENDS Order, TraceBase
VARIABLES tid, l, err
Pos(q, x) == CHOOSE k \in DOMAIN q : q[k] = x
Once(q, S) == Len(q) = Cardinality(S) /\ Range1(q) = S
Levels(tr, s) ==
  LET g == tr.g
      lev == Level(g)
      all == FoldLeft(LAMBDA a, x : a \o x, <<>>, s.levels)
      Ports == UNION {{<<i, p>> : p \in 1..g[i].n} : i \in DOMAIN g}
      Deep == MaxOf({lev[i] : i \in {j \in DOMAIN g : g[j].n > 0}}, -1)
  IN IF DelayFreeLoops(g) # {} THEN ""  \* a nested graph with a delay inside a loop
  ELSE FirstBad(<<
    <<"a port is missing from the precedence list or is listed twice", Once(all, Ports)>>,
    <<"a port is not in the first level after all it needs",
      \A k \in DOMAIN s.levels : \A x \in Range1(s.levels[k]) : lev[x[1]] = k - 1>>,
    <<"a level is empty or too much", Len(s.levels) = Deep + 1>>
  >>)
Topo(tr, s) ==
  LET g == tr.g IN FirstBad(<<
    <<"an operation is missing from the topological order or is listed twice",
      Once(s.order, DOMAIN g)>>,
    <<"an operation precedes one that feeds it",
      Loops(g) = {} => \A i \in DOMAIN g : \A x \in Range1(g[i].src) :
        Pos(s.order, x) < Pos(s.order, i)>>,
    <<"an operation fed by no loop precedes one that feeds it",
      \A i \in DOMAIN g : Back(g, {i}) \cap Loops(g) = {} =>
        \A x \in Range1(g[i].src) : Pos(s.order, x) < Pos(s.order, i)>>
  >>)
Required(tr, s) ==
  FirstBad(<<
    <<"required inputs are not those that lead to the output",
      \A o \in DOMAIN tr.outs :
        Once(s.req[o], {i \in DOMAIN tr.ins : tr.ins[i] \in Back(tr.g, {tr.outs[o]})})>>
  >>)
(* Single operations: an input that changes an output is required for it.      *)
Single(s) ==
  FirstBad(<<
    <<"an output depends on an input it is not said to require",
      \A o \in DOMAIN s.dep : Range1(s.dep[o]) \subseteq Range1(s.req[o])>>,
    <<"an input that does not exist is required", \A o \in DOMAIN s.req : Range1(s.req[o]) \subseteq 1..s.nin>>,
    <<"an output that does not exist has required inputs", s.beyond>>
  >>)
Verdict(tr, s) ==
  CASE s.kind = "levels" -> Levels(tr, s)
    [] s.kind = "topo" -> Topo(tr, s)
    [] s.kind = "req" -> Required(tr, s)
    [] s.kind = "op" -> Single(s)
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid], Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
