------------------------------ MODULE MemModel ------------------------------
(* Exhaustive design model of a memory whose cells are shared by variables    *)
(* that recur with period T: every small collection and every assignment of   *)
(* variables to cells.  The memory is operated for some periods (reads of a   *)
(* cycle precede its writes); all values read are right exactly when no two   *)
(* variables of a cell are active in the same cycle.  Every collection is     *)
(* emitted and given to the real code.                                        *)
EXTENDS Share, Json
Case == JsonDeserialize("model.json")
VARIABLES T, P, a, t, mem, bad
vars == <<T, P, a, t, mem, bad>>

Lives(T0) == IF Case.multi THEN {x \in SUBSET (0..T0) : x # {}} ELSE {{k} : k \in 0..T0}
Collections(T0, n) ==
  [1..n -> {[s |-> s, ex |-> MaxOf(x, 0), rd |-> SetToSeq(x)] : s \in 0..(T0 - 1), x \in Lives(T0)}]
(* Assignments up to renaming of the cells. *)
Cells(n) == {f \in [1..n -> 1..n] : \A i \in 1..n : f[i] <= 1 + MaxOf({f[j] : j \in 1..(i - 1)}, 0)}
Sorted(p) == \A i \in 1..(Len(p) - 1) : p[i].s <= p[i + 1].s

Init == /\ T \in Range1(Case.T)
        /\ \E n \in Range1(Case.n) : /\ P \in Collections(T, n)
                                     /\ a \in Cells(n)
        /\ Sorted(P)
        /\ t = 0 /\ mem = [c \in 1..3 |-> <<0, 0>>] /\ bad = FALSE

Born(i) == t >= P[i].s /\ (t - P[i].s) % T = 0
ReadsNow(i) == {x \in Range1(P[i].rd) : t - x >= P[i].s /\ (t - x - P[i].s) % T = 0}
Got(i, x) == IF x = 0 THEN <<i, t>> ELSE mem[a[i]]
Writers(c) == {i \in DOMAIN P : a[i] = c /\ Born(i) /\ P[i].ex > 0}
Tick == /\ t < 3 * T + 1
        /\ bad' = (bad \/ \E i \in DOMAIN P : \E x \in ReadsNow(i) : Got(i, x) # <<i, t - x>>)
        /\ mem' = [c \in 1..3 |->
                     IF Writers(c) = {} THEN mem[c]
                     ELSE LET i == CHOOSE i \in Writers(c) : TRUE IN <<i, t>>]
        /\ t' = t + 1 /\ UNCHANGED <<T, P, a>>
Spec == Init /\ [][Tick]_vars

ConflictFree == \A i, j \in DOMAIN P : (i < j /\ a[i] = a[j]) => ~Overlap(P[i], P[j], T)
Survives == ConflictFree => ~bad
Needed == (t = 3 * T + 1 /\ ~ConflictFree) => bad
Emit == (t' = 1 /\ \A i \in DOMAIN P : a[i] = i) => PrintT("TR|" \o ToJson([T |-> T, P |-> P]))
=============================================================================
