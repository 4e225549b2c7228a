-------------------------------- MODULE Share --------------------------------
(* Sharing of units (operators, memory cells, memory ports) between processes *)
(* that recur with period T.  A process is a record [s, ex] (active in cycles *)
(* s..s+ex-1) and, for memory variables, rd (the sequence of its life times:  *)
(* it is written in cycle s and read in the cycles s + rd[i]).                *)
EXTENDS Common

(* --- units occupied during the execution time ----------------------------- *)
Use(P, T, t) ==
  SumFn([i \in DOMAIN P |-> Cardinality({j \in 0..(P[i].ex - 1) : (P[i].s + j) % T = t})],
        DOMAIN P)
Active(p, T) == {(p.s + j) % T : j \in 0..(p.ex - 1)}
Overlap(p, q, T) == Active(p, T) \cap Active(q, T) # {}
MaxUse(P, T) == MaxOf({Use(P, T, t) : t \in 0..(T - 1)} \cup {0}, 0)

(* --- accesses to ports ----------------------------------------------------- *)
WritesAt(P, T, t) == Cardinality({i \in DOMAIN P : P[i].s % T = t})
ReadTimes(p) == {p.s + x : x \in Range1(p.rd)}
ReadsAt(P, T, t) ==
  SumFn([i \in DOMAIN P |-> Cardinality({x \in ReadTimes(P[i]) : x % T = t})], DOMAIN P)
FitsPorts(P, T, r, w, n) ==
  \A t \in 0..(T - 1) : /\ WritesAt(P, T, t) <= w
                        /\ ReadsAt(P, T, t) <= r
                        /\ WritesAt(P, T, t) + ReadsAt(P, T, t) <= n
(* The same when a variable that alone needs more ports has the cycle to       *)
(* itself, and the total is taken over one period only: `wrap` says whether    *)
(* the end of the period is the start of the next.                             *)
At(x, T, wrap) == IF wrap THEN x % T ELSE x
Count(P, Acc(_), T, wrap, t) ==
  [i \in DOMAIN P |-> Cardinality({x \in Acc(P[i]) : At(x[2], T, wrap) = t})]
Within(c, D, n) == LET total == SumFn(c, D)
                   IN total <= n \/ \E i \in D : c[i] = total
FitsAlone(P, T, r, w, n, wrap) ==
  LET Wr(p) == {<<0, p.s>>}
      Rd(p) == {<<1, x>> : x \in ReadTimes(p)}
      Both(p) == Wr(p) \cup Rd(p)
  IN \A t \in 0..(T - 1) :
       /\ Within(Count(P, Wr, T, TRUE, t), DOMAIN P, IF w < n THEN w ELSE n)
       /\ Within(Count(P, Rd, T, TRUE, t), DOMAIN P, IF r < n THEN r ELSE n)
       /\ Within(Count(P, Both, T, wrap, t), DOMAIN P, n)

(* --- partitions ------------------------------------------------------------ *)
Sub(P, part) == [k \in DOMAIN part |-> P[part[k]]]
IsPartition(parts, N) ==
  /\ \A k \in DOMAIN parts : parts[k] # <<>>
  /\ \A i \in N : Cardinality({<<k, j>> \in UNION {{k} \X DOMAIN parts[k] : k \in DOMAIN parts} :
                                 parts[k][j] = i}) = 1
  /\ \A k \in DOMAIN parts : Range1(parts[k]) \subseteq N
(* Can the processes be divided into n parts without two conflicting ones in  *)
(* the same part?  (Exhaustive; used for small collections.)                  *)
Colourable(N, conf, n) ==
  n >= 1 /\ \E f \in [N -> 1..n] : \A c \in conf : f[c[1]] # f[c[2]]
=============================================================================
