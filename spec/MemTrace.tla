------------------------------- MODULE MemTrace -------------------------------
(* A memory with the cells that the code assigned, operated cycle by cycle.   *)
(* Values are <<source port, cycle of birth>>.  A trace gives                 *)
(*   want  the deliveries asked for: source w, start s, destination d, life L *)
(*   P     the variables placed in the memory: s, src (0, or the variable     *)
(*         whose relayed value is stored), w, rd (records d, nx, L), cell     *)
EXTENDS Share, TraceBase
VARIABLES tid, l, err, mem
vars == <<tid, l, err, mem>>

None == <<0, -1>>
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = ""
         /\ mem = [c \in 1..Traces[tid].cells |-> None]

SrcVal(tr, m, v, t) ==
  IF tr.P[v].src = 0 THEN <<tr.P[v].w, t>> ELSE m[tr.P[tr.P[v].src].cell]
Now(tr, p, L, t) == (t - L - p.s) % tr.T = 0
Delivered(tr, m, t) ==
  UNION {{<<tr.P[v].rd[k].d, IF tr.P[v].rd[k].L = 0 THEN SrcVal(tr, m, v, t)
                             ELSE m[tr.P[v].cell]>>
            : k \in {j \in DOMAIN tr.P[v].rd : tr.P[v].rd[j].nx = 0
                                               /\ Now(tr, tr.P[v], tr.P[v].rd[j].L, t)}}
         : v \in DOMAIN tr.P}
Wanted(tr, t) ==
  {<<x.d, <<x.w, t - x.L>>>> : x \in {y \in Range1(tr.want) : t - y.L >= 0 /\ Now(tr, y, y.L, t)}}
(* What was written before cycle 0 is unknown. *)
Known(D) == {x \in D : x[2] # None /\ x[2][2] >= 0}

Writes(tr, c, t) ==
  {v \in DOMAIN tr.P : tr.P[v].cell = c /\ Now(tr, tr.P[v], 0, t)
                       /\ \E k \in DOMAIN tr.P[v].rd : tr.P[v].rd[k].L > 0}
Relays(tr) ==
  \A v \in DOMAIN tr.P : tr.P[v].src # 0 =>
    LET u == tr.P[tr.P[v].src]
    IN \E k \in DOMAIN u.rd : u.rd[k].nx = v /\ (u.s + u.rd[k].L - tr.P[v].s) % tr.T = 0

Static(tr) ==
  FirstBad(<<
    <<"a variable is longer than allowed",
        \A v \in DOMAIN tr.P : \A k \in DOMAIN tr.P[v].rd : tr.P[v].rd[k].L <= tr.max>>,
    <<"a piece of a chain is not written when the previous one is read", Relays(tr)>>,
    <<"two sources written to a cell in the same cycle",
        \A c \in 1..tr.cells : \A t \in 0..(tr.T - 1) : Cardinality(Writes(tr, c, t)) <= 1>>
  >>)
Tick(tr, t) ==
  LET D == Known(Delivered(tr, mem, t))
  IN FirstBad(<<
    <<"a value is not delivered when it is to be read", Wanted(tr, t) \subseteq D>>,
    <<"a wrong value is delivered", D \subseteq Wanted(tr, t)>>
  >>)
TNext ==
  LET tr == Traces[tid]
  IN /\ err = "" /\ l < tr.H
     /\ l' = l + 1 /\ tid' = tid
     /\ err' = FirstOf(<<IF l = 0 THEN Static(tr) ELSE "", Tick(tr, l)>>)
     /\ mem' = [c \in DOMAIN mem |->
                  IF Writes(tr, c, l) = {} THEN mem[c]
                  ELSE SrcVal(tr, mem, CHOOSE v \in Writes(tr, c, l) : TRUE, l)]
     /\ IF err' # "" THEN Say("VIOL", tid, l', tr.name \o ": " \o err')
        ELSE IF l' = tr.H THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
