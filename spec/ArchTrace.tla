-------------------------------- MODULE ArchTrace --------------------------------
(* Histories of real architectures.  A trace is an instance of Arch with the  *)
(* initial placement (pe, mem), acc (was it accepted), and steps; each step   *)
(* has the act, ok, and what the architecture then is: has (processes of each *)
(* block), live, asg (blocks assigned), and its reported connections.         *)
EXTENDS Arch, TraceBase
VARIABLES tid, l, err, st, live, asg
vars == <<tid, l, err, st, live, asg>>
TInit ==
  /\ tid \in DOMAIN Traces /\ l = 0 /\ err = ""
  /\ st = [pe |-> Traces[tid].pe, mem |-> Traces[tid].mem]
  /\ live = DOMAIN Traces[tid].blocks /\ asg = {}

SetOf(s) == Range1(s)
\* blocks as reported: sequences of process numbers
HasOk(I, s, lv, has) ==
  \A b \in lv :
    IF I.blocks[b].kind = "pe" THEN
      SetOf(has[b]) = OpsOf(I, s, b) /\ Len(has[b]) = Cardinality(SetOf(has[b]))
    ELSE SetOf(has[b]) = VarsOf(I, s, b) /\ Len(has[b]) = Cardinality(SetOf(has[b]))
Conn(q) == {<<x[1], x[2], x[3]>> : x \in Range1(q)}
Exact(q, S) == Conn(q) = S /\ Len(q) = Cardinality(S)
Connections(I, s, lv, rep) ==
  FirstBad(<<
    <<"sources reported for an input of a processing element are wrong",
       \A b \in lv : I.blocks[b].kind = "pe" =>
         \A i \in 1..I.blocks[b].ni : Exact(rep[b].in[i], PeIn(I, s, b, i - 1))>>,
    <<"destinations reported for an output of a processing element are wrong",
       \A b \in lv : I.blocks[b].kind = "pe" =>
         \A j \in 1..I.blocks[b].no : Exact(rep[b].out[j], PeOut(I, s, b, j - 1))>>,
    <<"sources reported for a memory are wrong",
       \A b \in lv : I.blocks[b].kind = "mem" => Exact(rep[b].in[1], MemIn(I, s, b))>>,
    <<"destinations reported for a memory are wrong",
       \A b \in lv : I.blocks[b].kind = "mem" => Exact(rep[b].out[1], MemOut(I, s, b))>>
  >>)
Observed(I, s, lv, a, e) ==
  FirstOf(<<
    IF "want" \notin DOMAIN e \/ e.ok = e.want THEN "" ELSE "not what the model does",
    IF SetOf(e.live) = lv /\ Len(e.live) = Cardinality(lv) THEN ""
    ELSE "blocks of the architecture are wrong",
    IF HasOk(I, s, lv, e.has) THEN "" ELSE "contents of the blocks are wrong",
    IF SetOf(e.asg) = a THEN "" ELSE "a change that failed changed what is assigned",
    Connections(I, s, lv, e.rep),
    IF e.mux = MuxCount(I, s, lv, 1) THEN "" ELSE "number of multiplexer inputs is wrong",
    IF e.muxed = MuxCount(I, s, lv, 2) THEN ""
    ELSE "number of inputs of multiplexers is wrong"
  >>)
\* what may come of a step: <<verdict, new st, new live>>
Outcome(I, e) ==
  CASE e.act = "move" ->
         LET p == <<e.p.k, e.p.i>>
             can == MayMove(I, st, live, p, e.from, e.to)
             s2 == Put(st, p, e.to)
             fit == can /\ (e.assign => Fits(I, s2, e.to) /\ Fits(I, s2, e.from))
         IN IF ~e.ok THEN
              <<IF fit THEN "a possible move was refused" ELSE "", st, live>>
            ELSE IF e.from = e.to /\ Where(st, p) = e.from THEN <<"", st, live>>
            ELSE IF ~can THEN <<"an impossible move was made", st, live>>
            ELSE IF ~fit THEN
              <<"a block was assigned what does not fit", st, live>>
            ELSE <<"", s2, live>>
    [] e.act = "remove" ->
         LET empty == e.b \in live /\ OpsOf(I, st, e.b) = {} /\ VarsOf(I, st, e.b) = {}
         IN IF e.ok # empty THEN
              <<IF e.ok THEN "a block in use was removed"
                ELSE "an empty block could not be removed", st, live>>
            ELSE <<"", st, IF e.ok THEN live \ {e.b} ELSE live>>
    [] e.act = "add" ->
         <<IF e.ok THEN "" ELSE "a block could not be added", st, live \cup {e.b}>>
    [] OTHER -> <<"", st, live>>
\* what assign_processing_elements_and_memories gave within the limits lim
Limits(I, lim) ==
  LET made(ty) == Cardinality({b \in DOMAIN I.blocks : I.blocks[b].kind = "pe"
                                                       /\ I.blocks[b].ty = ty})
      mems == Cardinality({b \in DOMAIN I.blocks : I.blocks[b].kind = "mem"})
      inputs == MuxIn(I, st, DOMAIN I.blocks)
      given == lim.types # <<>> \/ lim.mems # 0
  IN IF I.raised THEN
       IF ~lim.small \/ ~Feasible(I, lim) THEN ""
       ELSE IF lim.best \in {"left_edge", "greedy_graph_color"} THEN
         IF given THEN "" ELSE "an assignment without limits was refused"
       ELSE IF lim.best = "ilp_min_mux" /\ lim.mux # 0
               /\ (~lim.enum \/ LeastMux(I, lim) = -1) THEN ""
       ELSE "a possible assignment was refused"
     ELSE IF ~I.whole THEN "a process was left out or is in two blocks"
     ELSE IF ~I.acc THEN "the assignment is not an architecture"
     ELSE FirstBad(<<
    <<"more processing elements of a type than allowed",
       \A x \in Range1(lim.types) : made(x.ty) <= x.n>>,
    <<"more memories than allowed", lim.mems = 0 \/ mems <= lim.mems>>,
    <<"more memory accesses than ports allowed",
       \A b \in DOMAIN I.blocks : I.blocks[b].kind = "mem" =>
         \A x \in VarConf(I, lim.t) : ~(st.mem[x[1]] = b /\ st.mem[x[2]] = b)>>,
    <<"operations that meet on one processing element",
       \A b \in DOMAIN I.blocks : I.blocks[b].kind = "pe" => FitsPe(I, OpsOf(I, st, b))>>,
    <<"an input has more sources than allowed",
       lim.mux = 0 \/ \A x \in inputs : Cardinality(x[3]) <= lim.mux>>,
    <<"the optimal strategy does not give the fewest processing elements",
       (lim.best = "ilp_graph_color" /\ lim.small) =>
         \A ty \in Types(I) : made(ty) = Least(OfType(I, ty), OpConf(I, ty))>>,
    <<"the optimal strategy does not give the fewest memories",
       (lim.best = "ilp_graph_color" /\ lim.small) =>
         mems = Least(Stored(I), VarConf(I, lim.t))>>,
    <<"the optimal strategy does not give the fewest multiplexer inputs",
       (lim.best = "ilp_min_mux" /\ lim.enum) =>
         MuxCount(I, st, DOMAIN I.blocks, 1) = LeastMux(I, lim)>>
  >>)
Begin(I) ==
  LET ok == Complete(I, st)
  IN IF ~I.built THEN "a block could not be made of processes that fit"
     ELSE IF "limits" \in DOMAIN I /\ Limits(I, I.limits) # "" THEN Limits(I, I.limits)
     ELSE IF "limits" \in DOMAIN I /\ I.raised THEN ""
     ELSE IF ~Faithful(I) THEN "variables are not the transfers of the graph"
     ELSE IF I.acc /\ ~ok THEN "an incomplete architecture was accepted"
     ELSE IF ~I.acc /\ ok THEN "a complete architecture was refused"
     ELSE ""
TNext ==
  LET I == Traces[tid]
      n == Len(I.steps)
      first == IF l = 0 THEN Begin(I) ELSE ""
      e == I.steps[l + 1]
      r == IF n = 0 THEN <<"", st, live>> ELSE Outcome(I, e)
      a == IF n = 0 THEN {} ELSE IF e.ok THEN SetOf(e.asg) ELSE asg
  IN /\ err = "" /\ (l < n \/ (n = 0 /\ l = 0))
     /\ l' = l + 1 /\ tid' = tid
     /\ st' = r[2] /\ live' = r[3] /\ asg' = a
     /\ err' = FirstOf(<<first, r[1],
                         IF n = 0 THEN "" ELSE Observed(I, r[2], r[3], a, e)>>)
     /\ IF err' # "" THEN Say("VIOL", tid, l', err')
        ELSE IF l' >= n THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
