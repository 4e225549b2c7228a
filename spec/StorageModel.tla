------------------------------ MODULE StorageModel ------------------------------
(* The storage machines of the code generators, clock cycle by clock cycle:   *)
(* a memory whose addresses come from tables indexed by a schedule counter,   *)
(* through any number of registers, with or without a register at the input   *)
(* and at the output, short-lived variables going past the memory.            *)
(* Every design with at most N variables and period at most MaxT.             *)
EXTENDS Storage, Json
CONSTANTS MaxT, N, Depths
VARIABLES d, t, mem, din, dout, owed
vars == <<d, t, mem, din, dout, owed>>

None == -1
\* din: registers of the data; adr: registers after the tables; k: how much
\* earlier the tables of addresses are; rk: how much earlier (than that) the one
\* of reads; oreg: output register; fw: life time that goes past the memory;
\* fk: position of the table that tells so.
Cfg ==
  [async |-> [din |-> 0, adr |-> 0, k |-> 0, rk |-> 0, oreg |-> 0, fw |-> -1, fk |-> 0,
              lat |-> 0, sh |-> 0],
   asyncpipe |-> [din |-> 0, adr |-> 1, k |-> 1, rk |-> 0, oreg |-> 0, fw |-> -1, fk |-> 0,
              lat |-> 0, sh |-> 0],
   sync |-> [din |-> 0, adr |-> 0, k |-> 0, rk |-> 1, oreg |-> 1, fw |-> 1, fk |-> 0,
              lat |-> 0, sh |-> 0],
   syncpipe |-> [din |-> 0, adr |-> 1, k |-> 1, rk |-> 1, oreg |-> 1, fw |-> 1, fk |-> 0,
              lat |-> 0, sh |-> 0],
   direct |-> [din |-> 0, adr |-> 0, k |-> 0, rk |-> 0, oreg |-> 1, fw |-> 0, fk |-> 0,
              lat |-> 1, sh |-> 0]]
Piped(n) == [din |-> 1, adr |-> n + 1, k |-> 0, rk |-> 0, oreg |-> 1, fw |-> 0,
             fk |-> n + 1, lat |-> 2, sh |-> n]
Configs == {<<c, Cfg[c]>> : c \in DOMAIN Cfg} \cup {<<"piped", Piped(n)>> : n \in Depths}

Lives(T, lo) == {<<x>> : x \in lo..T} \cup {<<x, y>> \in (lo..T) \X (lo..T) : x < y}
Starts(T) == {<<x>> : x \in 0..(T - 1)}
  \cup {<<x, y>> \in (0..(T - 1)) \X (0..(T - 1)) : N > 1 /\ x < y}
  \cup {<<x, y, z>> \in (0..(T - 1)) \X (0..(T - 1)) \X (0..(T - 1)) : N > 2 /\ x < y /\ y < z}
Designs(T, cfg) ==
  LET lo == IF cfg[2].fw = 0 THEN 0 ELSE 1
      ls == IF lo = 0 THEN {<<x>> : x \in 0..T} ELSE Lives(T, lo)
  IN {P \in UNION {{[i \in DOMAIN s |-> [s |-> s[i], rd |-> q[i]]] :
                       q \in [DOMAIN s -> ls]} : s \in Starts(T)} : OnePort(P, T)}
ExR(p) == MaxOf(Range1(p.rd), 0)
HeldR(p, T) == {(p.s + j) % T : j \in 0..(ExR(p) - 1)}
CellsR(P, T) ==
  {a \in [1..Len(P) -> 1..Len(P)] :
     /\ \A i \in DOMAIN a : a[i] <= i
     /\ \A i, j \in DOMAIN a :
          i # j /\ a[i] = a[j] => HeldR(P[i], T) \cap HeldR(P[j], T) = {}}

Init ==
  /\ \E T \in 1..MaxT, cfg \in Configs : \E P \in Designs(T, cfg) :
       \E a \in CellsR(P, T) :
         d = [T |-> T, cfg |-> cfg[2], name |-> cfg[1], P |-> P, cell |-> a]
  /\ t = 0 /\ mem = [c \in 1..Len(d.P) |-> None] /\ din = None /\ dout = None /\ owed = {}

T == d.T
C == d.cfg
At(x) == (x - C.k + C.adr) % T          \* when an entry for time x is at the memory
\* what the tables say in cycle t; the counter is t modulo T
Write == {v \in DOMAIN d.P : ExR(d.P[v]) > 0 /\ At(d.P[v].s) = t % T}
Read == {v \in DOMAIN d.P : \E x \in Range1(d.P[v].rd) : At(d.P[v].s + x - C.rk) = t % T}
Forward == \E v \in DOMAIN d.P : C.fw \in Range1(d.P[v].rd) /\ (d.P[v].s + C.fk) % T = t % T
Data == IF C.din = 1 THEN din ELSE t
Fetched == IF Read = {} THEN mem[1] ELSE mem[d.cell[CHOOSE v \in Read : TRUE]]
Out == IF C.oreg = 1 THEN dout ELSE Fetched

Next ==
  /\ t < 3 * T + C.sh + C.lat
  /\ t' = t + 1 /\ d' = d
  /\ mem' = [c \in DOMAIN mem |->
       IF \E v \in Write : d.cell[v] = c THEN Data ELSE mem[c]]
  /\ din' = t
  /\ dout' = IF C.fw >= 0 /\ Forward THEN Data ELSE Fetched
  /\ owed' = {x \in owed \cup Arriving(d.P, T, C.sh, C.lat, t, t) : x[1] > t}
  /\ (t' = 3 * T + C.sh + C.lat =>
        PrintT("TR|" \o ToJson([T |-> T, P |-> d.P, name |-> d.name,
                                depth |-> C.sh])))
Spec == Init /\ [][Next]_vars
\* the values owed now are at the output
Present == \A x \in owed \cup Arriving(d.P, T, C.sh, C.lat, t, t) :
             x[1] = t /\ x[2] >= C.sh => Out = x[2]
\* no entry of a table is asked to be two things
Conflicts == Cardinality(Write) <= 1 /\ Cardinality(Read) <= 1
=============================================================================
