---------------------------------- MODULE Arch ----------------------------------
(* Architectures: operations on processing elements, variables in memories or *)
(* passed on directly.  An instance I has                                     *)
(*   T       the schedule time                                                *)
(*   ops     [ty, lat, s, ex, ni, no]: type, latency, start, execution time,  *)
(*           number of inputs and of outputs                                  *)
(*   vars    [src, sp, rd, s, len, dir]: source operation and port, operands  *)
(*           read <<operation, input>>, start, reads [x delays], length, and  *)
(*           whether it is passed on directly; prev is the variable it is the *)
(*           continuation of (0: none), when it lives for more than a period  *)
(*   edges   [src, sp, dst, dp]: which output every operand is, by the graph  *)
(*   blocks  [kind, ty, lat, rp, wp]: "pe" with type and latency, "mem"       *)
(* A placement st has pe (block of every operation) and mem (block of every   *)
(* stored variable); 0 for nowhere.  live is the set of blocks present.       *)
EXTENDS Share

Ops(I) == DOMAIN I.ops
Stored(I) == {v \in DOMAIN I.vars : ~I.vars[v].dir}
Direct(I) == {v \in DOMAIN I.vars : I.vars[v].dir}
OpsOf(I, st, b) == {o \in Ops(I) : st.pe[o] = b}
VarsOf(I, st, b) == {v \in Stored(I) : st.mem[v] = b}
Present(I, st) == {v \in DOMAIN I.vars : I.vars[v].dir \/ st.mem[v] # 0}

(* ------------------------------------------------------------- acceptance *)
Operands(I, st) == {<<e.dst, e.dp>> : e \in {x \in Range1(I.edges) : st.pe[x.dst] # 0}}
Results(I, st) == {<<e.src, e.sp>> : e \in {x \in Range1(I.edges) : st.pe[x.src] # 0}}
\* every operand is read from somewhere, everything read is the operand of an
\* operation that is there; every result used goes somewhere, every variable
\* comes from an operation that is there
Complete(I, st) ==
  /\ UNION {Range1(I.vars[v].rd) : v \in Present(I, st)} = Operands(I, st)
  /\ {<<I.vars[v].src, I.vars[v].sp>> : v \in Present(I, st)} = Results(I, st)
  \* a variable continued in another one is there as well
  /\ \A v \in Present(I, st) : I.vars[v].prev = 0 \/ I.vars[v].prev \in Present(I, st)
\* the variables are the transfers of the graph, each operand read once
Faithful(I) ==
  /\ \A v \in DOMAIN I.vars : \A r \in Range1(I.vars[v].rd) :
       \E e \in Range1(I.edges) :
         e.src = I.vars[v].src /\ e.sp = I.vars[v].sp /\ e.dst = r[1] /\ e.dp = r[2]
  /\ \A v, w \in DOMAIN I.vars : v # w =>
       Range1(I.vars[v].rd) \cap Range1(I.vars[w].rd) = {}

(* ----------------------------------------------------------- interconnect *)
\* counted sets of sources or destinations, as <<block, port, count>>
Counted(S) ==   \* S: set of <<who, block, port>>
  {<<x[2], x[3], Cardinality({y \in S : y[2] = x[2] /\ y[3] = x[3]})>> : x \in S}
EdgeTo(I, o, i) == CHOOSE e \in Range1(I.edges) : e.dst = o /\ e.dp = i
ReaderOf(I, o, i) == CHOOSE v \in DOMAIN I.vars : <<o, i>> \in Range1(I.vars[v].rd)
PeIn(I, st, b, i) ==
  Counted({LET v == ReaderOf(I, o, i)
               e == EdgeTo(I, o, i)
           IN IF I.vars[v].dir THEN <<o, st.pe[e.src], e.sp>> ELSE <<o, st.mem[v], 0>>
           : o \in OpsOf(I, st, b)})
PeOut(I, st, b, j) ==
  Counted(UNION {
    {<<o, st.mem[v], 0>> : v \in {w \in Stored(I) : I.vars[w].src = o /\ I.vars[w].sp = j
                                             /\ I.vars[w].prev = 0}}
    \cup UNION {{<<o, st.pe[r[1]], r[2]>> : r \in Range1(I.vars[v].rd)} :
                  v \in {w \in Direct(I) : I.vars[w].src = o /\ I.vars[w].sp = j}}
    : o \in OpsOf(I, st, b)})
MemIn(I, st, b) ==
  Counted({<<v, IF I.vars[v].prev = 0 THEN st.pe[I.vars[v].src] ELSE st.mem[I.vars[v].prev],
             0>> : v \in VarsOf(I, st, b)})
MemOut(I, st, b) ==
  Counted(UNION {{<<r, st.pe[r[1]], 0>> : r \in Range1(I.vars[v].rd)} :
                   v \in VarsOf(I, st, b)})
\* the sources each input of each block has
MuxIn(I, st, live) ==
  UNION {IF I.blocks[b].kind = "pe"
         THEN {<<b, i, {<<x[1], x[2]>> : x \in PeIn(I, st, b, i)}>> :
                 i \in 0..(I.blocks[b].ni - 1)}
         ELSE {<<b, 0, {IF I.vars[v].prev = 0 THEN <<st.pe[I.vars[v].src], I.vars[v].sp>>
                       ELSE <<st.mem[I.vars[v].prev], 0>> : v \in VarsOf(I, st, b)}>>}
         : b \in live}
MuxCount(I, st, live, least) ==
  LET M == {x \in MuxIn(I, st, live) : Cardinality(x[3]) >= least}
  IN SumFn([x \in M |-> Cardinality(x[3])], M)

(* ------------------------------------------------------------------ moves *)
OpRec(I, o) == [s |-> I.ops[o].s, ex |-> I.ops[o].ex]
Whole(I, o) == I.ops[o].ex >= I.T
Clash(I, o, q) == \/ Overlap(OpRec(I, o), OpRec(I, q), I.T)
                  \/ (Whole(I, o) /\ I.ops[q].ex > 0)
                  \/ (Whole(I, q) /\ I.ops[o].ex > 0)
FitsPe(I, S) == \A o, q \in S : o # q => ~Clash(I, o, q)
VarRec(I, v) == [s |-> I.vars[v].s, rd |-> I.vars[v].x, ex |-> I.vars[v].len]
FitsMem(I, S, b) ==
  LET P == SetToSeq({<<v, VarRec(I, v)>> : v \in S})
      Q == [k \in DOMAIN P |-> P[k][2]]
  IN \A t \in 0..(I.T - 1) : /\ WritesAt(Q, I.T, t) <= I.blocks[b].wp
                             /\ ReadsAt(Q, I.T, t) <= I.blocks[b].rp
\* p = <<"op", o>> or <<"var", v>>
Where(st, p) == IF p[1] = "op" THEN st.pe[p[2]] ELSE st.mem[p[2]]
Kin(I, p, b) ==
  IF p[1] = "op" THEN I.blocks[b].kind = "pe" /\ I.blocks[b].ty = I.ops[p[2]].ty
                      /\ I.blocks[b].lat = I.ops[p[2]].lat
  ELSE I.blocks[b].kind = "mem"
Put(st, p, b) ==
  IF p[1] = "op" THEN [st EXCEPT !.pe[p[2]] = b] ELSE [st EXCEPT !.mem[p[2]] = b]
Fits(I, st, b) ==
  IF I.blocks[b].kind = "pe" THEN FitsPe(I, OpsOf(I, st, b))
  ELSE FitsMem(I, VarsOf(I, st, b), b)
(* ------------------------------------------------------------- assignment *)
\* Which operations cannot share a processing element and which variables
\* cannot share a memory with one write port and one read port (or, total = 1,
\* one port for both).
OpConf(I, ty) == {x \in Ops(I) \X Ops(I) : /\ x[1] < x[2] /\ I.ops[x[1]].ty = ty
                                          /\ I.ops[x[2]].ty = ty /\ Clash(I, x[1], x[2])}
Wr(I, v) == I.vars[v].s % I.T
Rds(I, v) == {(I.vars[v].s + x) % I.T : x \in Range1(I.vars[v].x)}
VarConf(I, total) ==
  {x \in Stored(I) \X Stored(I) :
     /\ x[1] < x[2]
     /\ \/ Wr(I, x[1]) = Wr(I, x[2])
        \/ Rds(I, x[1]) \cap Rds(I, x[2]) # {}
        \/ total = 1 /\ (Wr(I, x[1]) \in Rds(I, x[2]) \/ Wr(I, x[2]) \in Rds(I, x[1]))}
VarAlone(I, total) ==
  \A v \in Stored(I) : /\ Cardinality(Rds(I, v)) = Cardinality(Range1(I.vars[v].x))
                       /\ (total = 1 => Wr(I, v) \notin Rds(I, v))
Types(I) == {I.ops[o].ty : o \in Ops(I)}
OfType(I, ty) == {o \in Ops(I) : I.ops[o].ty = ty}
Least(N, conf) ==
  IF N = {} THEN 0 ELSE CHOOSE n \in 1..Cardinality(N) :
    Colourable(N, conf, n) /\ \A m \in 1..(n - 1) : ~Colourable(N, conf, m)
\* lim = [types: <<[ty, n]>>, mems (0: no limit), t, mux (0: no limit)]
LimitOf(lim, ty) ==
  IF \E x \in Range1(lim.types) : x.ty = ty
  THEN (CHOOSE x \in Range1(lim.types) : x.ty = ty).n ELSE 0
Feasible(I, lim) ==
  /\ VarAlone(I, lim.t)
  /\ \A ty \in Types(I) : LimitOf(lim, ty) = 0
       \/ Least(OfType(I, ty), OpConf(I, ty)) <= LimitOf(lim, ty)
  /\ lim.mems = 0 \/ Least(Stored(I), VarConf(I, lim.t)) <= lim.mems
\* all placements within the limits, on blocks numbered from 1 for every type
\* and for the memories; a placement is [pe, mem] on <<type, k>> and <<"", k>>
AllPlacements(I, lim) ==
  {[pe |-> f, mem |-> g] :
     f \in {h \in [Ops(I) -> 1..MaxOf({x.n : x \in Range1(lim.types)}, 1)] :
             /\ \A o \in Ops(I) : h[o] <= LimitOf(lim, I.ops[o].ty)
             /\ \A ty \in Types(I) : \A c \in OpConf(I, ty) : h[c[1]] # h[c[2]]},
     g \in {h \in [Stored(I) -> 1..lim.mems] :
             \A c \in VarConf(I, lim.t) : h[c[1]] # h[c[2]]}}
\* the sources at every input of a block: operands and memory inputs
Sources(I, q) ==
  {LET v == ReaderOf(I, e.dst, e.dp)
   IN <<<<I.ops[e.dst].ty, q.pe[e.dst], e.dp>>,
        IF I.vars[v].dir THEN <<I.ops[e.src].ty, q.pe[e.src], e.sp>>
        ELSE <<"", q.mem[v], 0>>>> : e \in Range1(I.edges)}
  \cup {<<<<"", q.mem[v], 0>>,
          IF I.vars[v].prev # 0 THEN <<"", q.mem[I.vars[v].prev], 0>>
          ELSE <<I.ops[I.vars[v].src].ty, q.pe[I.vars[v].src], I.vars[v].sp>>>> :
          v \in Stored(I)}
Narrow(S, size) ==
  size = 0 \/ \A x \in S : Cardinality({y \in S : y[1] = x[1]}) <= size
LeastMux(I, lim) ==
  MinOf({Cardinality(Sources(I, q)) :
           q \in {r \in AllPlacements(I, lim) : Narrow(Sources(I, r), lim.mux)}}, -1)

MayMove(I, st, live, p, from, to) ==
  /\ Where(st, p) = from /\ from \in live /\ to \in live /\ from # to /\ Kin(I, p, to)
=============================================================================
