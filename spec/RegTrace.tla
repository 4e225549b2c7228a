------------------------------- MODULE RegTrace -------------------------------
(* A register file controlled by a forward-backward table, operated cycle by  *)
(* cycle: register 0 takes the input, register i takes register i-1, except   *)
(* that a back edge f -> r makes register r take register f.  Output row t is *)
(* taken from the register of the row, or from the input.  Values are         *)
(* <<variable, cycle of birth>>; rows give in (variables arriving), out       *)
(* (variables to be output), from (register, -1 the input, -2 nothing),       *)
(* regs (variable per register, 0 if none), back (sequence of [f, r]).        *)
EXTENDS Share, TraceBase
VARIABLES tid, l, err, reg
vars == <<tid, l, err, reg>>
None == <<0, -1>>
TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = ""
         /\ reg = [r \in 1..Traces[tid].regs |-> None]

Row(tr, t) == tr.rows[(t % tr.T) + 1]
Input(tr, t) == LET i == Row(tr, t).in IN IF i = <<>> THEN None ELSE <<i[1], t>>
Out(tr, t) ==
  LET f == Row(tr, t).from
  IN IF f = -2 THEN None ELSE IF f = -1 THEN Input(tr, t) ELSE reg[f + 1]
Due(tr, t) ==
  UNION {{<<v, t - x>> : x \in {y \in Range1(tr.P[v].rd) :
            t - y >= 0 /\ (t - y - tr.P[v].s) % tr.T = 0}} : v \in DOMAIN tr.P}

Static(tr) ==
  LET live == MaxUse(tr.P, tr.T)
  IN FirstBad(<<
    <<"table does not have one row per cycle", Len(tr.rows) = tr.T>>,
    <<"number of registers is not the number of live variables", tr.regs = live>>,
    <<"rows of different width", \A t \in 1..tr.T : Len(tr.rows[t].regs) = tr.regs>>,
    <<"inputs of the table are wrong",
        \A t \in 0..(tr.T - 1) :
          Range1(tr.rows[t + 1].in) = {v \in DOMAIN tr.P : tr.P[v].s % tr.T = t}>>,
    <<"outputs of the table are wrong",
        \A t \in 0..(tr.T - 1) :
          Range1(tr.rows[t + 1].out) =
            {v \in DOMAIN tr.P : \E x \in Range1(tr.P[v].rd) : (tr.P[v].s + x) % tr.T = t}>>,
    <<"two values into one register",
        \A t \in 1..tr.T : LET b == tr.rows[t].back
                           IN \A i, j \in DOMAIN b : i # j => b[i].r # b[j].r>>
  >>)
(* Once the file has been filled, its contents are those of the table. *)
Warm(tr) == MaxOf({tr.P[v].s + tr.P[v].ex : v \in DOMAIN tr.P}, 0)
Tick(tr, t) ==
  FirstBad(<<
    <<"value not presented when it is to be read",
        \A d \in Due(tr, t) : Out(tr, t) = d>>,
    <<"register does not hold the variable of the table",
        t >= Warm(tr) => \A r \in 1..tr.regs :
           LET v == Row(tr, t).regs[r]
           IN v = 0 \/ reg[r][1] = v
              \/ ~\E x \in Range1(tr.P[v].rd) : \E k \in 1..x :
                    (tr.P[v].s + k - t) % tr.T = 0>>
  >>)
TNext ==
  LET tr == Traces[tid]
      b == Row(tr, l).back
  IN /\ err = "" /\ l < tr.H
     /\ l' = l + 1 /\ tid' = tid
     /\ err' = LET s == IF l = 0 THEN Static(tr) ELSE ""
               IN IF s # "" THEN s ELSE Tick(tr, l)
     /\ reg' = IF err' # "" THEN reg
               ELSE [r \in DOMAIN reg |->
                  IF \E i \in DOMAIN b : b[i].r = r - 1
                  THEN reg[b[CHOOSE i \in DOMAIN b : b[i].r = r - 1].f + 1]
                  ELSE IF r = 1 THEN Input(tr, l) ELSE reg[r - 1]]
     /\ IF err' # "" THEN Say("VIOL", tid, l', err')
        ELSE IF l' = tr.H THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
