-------------------------------- MODULE ArchModel --------------------------------
(* All histories of Depth moves over given instances of Arch (model.json).    *)
EXTENDS Arch, Json
CONSTANT Depth
Insts == JsonDeserialize("model.json")
VARIABLES k, st, live, hist
vars == <<k, st, live, hist>>
I == Insts[k]
Init ==
  /\ k \in DOMAIN Insts /\ hist = <<>>
  /\ st = [pe |-> Insts[k].pe, mem |-> Insts[k].mem] /\ live = DOMAIN Insts[k].blocks
Procs == {<<"op", o>> : o \in Ops(I)} \cup {<<"var", v>> : v \in Stored(I)}
Move == \E p \in Procs, to \in DOMAIN I.blocks :
  LET from == Where(st, p)
      ok == MayMove(I, st, live, p, from, to) /\ Fits(I, Put(st, p, to), to)
  IN /\ to # from
     /\ st' = IF ok THEN Put(st, p, to) ELSE st
     /\ live' = live
     /\ hist' = Append(hist, [act |-> "move", k |-> p[1], i |-> p[2],
                              from |-> from, to |-> to, ok |-> ok])
RemoveBlock == \E b \in live :
  LET ok == OpsOf(I, st, b) = {} /\ VarsOf(I, st, b) = {}
  IN /\ st' = st /\ live' = IF ok THEN live \ {b} ELSE live
     /\ hist' = Append(hist, [act |-> "remove", k |-> "", i |-> b, from |-> 0, to |-> 0,
                              ok |-> ok])
Next == /\ Len(hist) < Depth /\ k' = k /\ (Move \/ RemoveBlock)
        /\ (Len(hist') = Depth => PrintT("TR|" \o ToJson([k |-> k, hist |-> hist'])))
Spec == Init /\ [][Next]_vars
Safe ==
  /\ Complete(I, st) /\ Faithful(I)
  \* blocks stay feasible, processes stay in blocks that are there
  /\ \A b \in DOMAIN I.blocks : Fits(I, st, b)
  /\ \A p \in Procs : Where(st, p) \in live
  \* what one block says it gets from another is what that one says it gives
  /\ \A b \in DOMAIN I.blocks : I.blocks[b].kind = "pe" =>
       \A i \in 0..(I.blocks[b].ni - 1) : \A x \in PeIn(I, st, b, i) :
         IF I.blocks[x[1]].kind = "mem"
         THEN \E y \in MemOut(I, st, x[1]) : y[1] = b /\ y[3] >= x[3]
         ELSE \E y \in PeOut(I, st, x[1], x[2]) : y[1] = b /\ y[2] = i
  \* every stored variable is written once, every operand is fetched once
  /\ SumSeq([b \in DOMAIN I.blocks |->
       IF I.blocks[b].kind = "mem"
       THEN LET S == MemIn(I, st, b) IN SumFn([x \in S |-> x[3]], S) ELSE 0])
     = Cardinality(Stored(I))
  /\ SumSeq([b \in DOMAIN I.blocks |->
       IF I.blocks[b].kind = "pe"
       THEN SumSeq([i \in 1..I.blocks[b].ni |->
              LET S == PeIn(I, st, b, i - 1) IN SumFn([x \in S |-> x[3]], S)]) ELSE 0])
     = Len(I.edges)
=============================================================================
