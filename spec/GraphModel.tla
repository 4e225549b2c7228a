----------------------------- MODULE GraphModel -----------------------------
(* All small graphs: node 1 is the input, the others are delays ("t"), one-   *)
(* input ("neg") or two-input ("add") operations; the last one is the output. *)
(* Every node lies on a way to the output and every loop has a delay.         *)
(* The levels are found by repeatedly taking any operation whose sources are  *)
(* known (in any order) and agree with the definition in Order.               *)
EXTENDS Order, Json
Case == JsonDeserialize("model.json")
VARIABLES g, lev
vars == <<g, lev>>
Node(n) == {[k |-> k, src |-> <<s>>] : k \in {"t", "neg"}, s \in 1..n}
           \cup {[k |-> "add", src |-> <<s, r>>] : s \in 1..n, r \in 1..n}
Mk(q) == LET n == Len(q) + 1
         IN <<[k |-> "in", src |-> <<>>]>> \o q \o <<[k |-> "out", src |-> <<n>>]>>
RECURSIVE BackFrom(_, _)
BackFrom(h, S) ==
  LET T == S \cup {s \in DOMAIN h : \E i \in S : s \in Range1(h[i].src)}
  IN IF T = S THEN S ELSE BackFrom(h, T)
Good(h) == BackFrom(h, {Len(h)}) = DOMAIN h /\ DelayFreeLoops(h) = {}
Init == /\ g \in {Mk(q) : q \in UNION {[1..n -> Node(n + 1)] : n \in Range1(Case.n)}}
        /\ Good(g)
        /\ lev = [i \in DOMAIN g |-> IF First(g, i) THEN 0 ELSE -1]
        /\ PrintT("TR|" \o ToJson(g))
Ready(i) == lev[i] < 0 /\ \A s \in Range1(g[i].src) : lev[s] >= 0
Next == \E i \in DOMAIN g :
          /\ Ready(i)
          /\ lev' = [lev EXCEPT ![i] = 1 + MaxOf({lev[s] : s \in Range1(g[i].src)}, 0)]
          /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
Same == \A i \in DOMAIN g : lev[i] >= 0 => lev[i] = Level(g)[i]
Ends == (\A i \in DOMAIN g : ~Ready(i)) => \A i \in DOMAIN g : lev[i] >= 0
=============================================================================
