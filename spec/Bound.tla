-------------------------------- MODULE Bound --------------------------------
(* Loops, paths, iteration period bound and critical path of a graph           *)
(* (nodes [k, src, sp, lat]: kind, sources with their ports, latency per       *)
(* output port).                                                               *)
EXTENDS Order
Succ(g, i) == {j \in DOMAIN g : i \in Range1(g[j].src)}
(* All simple paths from i to e through nodes of S.                            *)
RECURSIVE PathsIn(_, _, _, _)
PathsIn(adj, i, e, S) ==
  IF i = e THEN {<<e>>}
  ELSE UNION {{<<i>> \o p : p \in PathsIn(adj, j, e, S \ {i})} : j \in adj[i] \cap (S \ {i})}
Adj(g) == [i \in DOMAIN g |-> Succ(g, i)]
(* Every simple loop once, from its least node.                                *)
SimpleLoops(g) ==
  LET adj == Adj(g) IN
  UNION {(IF s \in adj[s] THEN {<<s>>} ELSE {})
         \cup UNION {{<<s>> \o p : p \in {q \in PathsIn(adj, j, s, {x \in DOMAIN g : x >= s}) :
                                         Len(q) > 1}} : j \in {x \in adj[s] : x > s}}
         : s \in DOMAIN g}
(* The paths above end in s again: drop that.                                   *)
Loop1(q) == IF Len(q) = 1 THEN q ELSE SubSeq(q, 1, Len(q) - 1)
AllLoops(g) == {Loop1(q) : q \in SimpleLoops(g)}
RotMin(q) == LET m == MinOf(Range1(q), 0)
                 k == CHOOSE i \in DOMAIN q : q[i] = m
             IN SubSeq(q, k, Len(q)) \o SubSeq(q, 1, k - 1)
Lat(n) == MaxOf(Range1(n.lat), 0)
LoopLat(g, q) == SumSeq([k \in DOMAIN q |-> Lat(g[q[k]])])
LoopDel(g, q) == Cardinality({k \in DOMAIN q : g[q[k]].k = "t"})
(* num / den is the largest quotient over all loops, -1 without loops.         *)
IsBound(g, num, den) ==
  LET ls == AllLoops(g) IN
  IF ls = {} THEN num = -1 * den
  ELSE /\ \A q \in ls : LoopLat(g, q) * den <= num * LoopDel(g, q)
       /\ \E q \in ls : LoopLat(g, q) * den = num * LoopDel(g, q)
(* Arrival of the data at the inputs of every node, delays delivering at 0.     *)
RECURSIVE ArriveFrom(_, _, _)
ArriveFrom(g, arr, todo) ==
  IF todo = {} THEN arr
  ELSE LET ready == {i \in todo : \A s \in Range1(g[i].src) : s \notin todo \/ g[s].k = "t"}
       IN ArriveFrom(g, [i \in DOMAIN g |->
             IF i \notin ready THEN arr[i]
             ELSE MaxOf({IF g[g[i].src[x]].k = "t" THEN 0
                         ELSE arr[g[i].src[x]] + g[g[i].src[x]].lat[g[i].sp[x]] :
                         x \in DOMAIN g[i].src}, 0)], todo \ ready)
Arrive(g) == ArriveFrom(g, [i \in DOMAIN g |-> 0], DOMAIN g)
Critical(g) ==
  LET arr == Arrive(g)
  IN MaxOf({arr[i] : i \in DOMAIN g}
           \cup UNION {{arr[i] + g[i].lat[p] : p \in DOMAIN g[i].lat} :
                       i \in {x \in DOMAIN g : g[x].k # "t"}}, 0)
CeilDiv(a, b) == (a + b - 1) \div b
=============================================================================
