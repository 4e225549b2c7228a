-------------------------------- MODULE Order --------------------------------
(* Orders of evaluation.  A graph is a sequence of nodes [k, src]: its kind    *)
(* and the nodes that feed its inputs; "t" is a delay.                         *)
EXTENDS Common
First(g, i) == g[i].src = <<>> \/ g[i].k = "t"
(* Nodes that node i combinationally needs.                                    *)
Needs(g, i) == IF First(g, i) THEN {} ELSE Range1(g[i].src)
RECURSIVE Upstream(_, _)
Upstream(g, S) == LET T == S \cup UNION {Needs(g, i) : i \in S} IN IF T = S THEN S ELSE Upstream(g, T)
(* Nodes on a loop without a delay.                                            *)
DelayFreeLoops(g) == {i \in DOMAIN g : i \in Upstream(g, Needs(g, i))}
(* Level 0 needs nothing; every other node is one above what it needs.         *)
RECURSIVE LevelFrom(_, _, _)
LevelFrom(g, lev, todo) ==
  IF todo = {} THEN lev
  ELSE LET ready == {i \in todo : Needs(g, i) \cap todo = {}}
       IN IF ready = {} THEN lev
          ELSE LevelFrom(g, [i \in DOMAIN g |->
                 IF i \notin ready THEN lev[i]
                 ELSE IF First(g, i) THEN 0
                 ELSE 1 + MaxOf({lev[s] : s \in Needs(g, i)}, 0)], todo \ ready)
Level(g) == LevelFrom(g, [i \in DOMAIN g |-> -1], DOMAIN g)

(* Nodes from which a way (through delays too) leads to node i.                *)
RECURSIVE Back(_, _)
Back(g, S) == LET T == S \cup UNION {Range1(g[i].src) : i \in S} IN IF T = S THEN S ELSE Back(g, T)
Loops(g) == {i \in DOMAIN g : i \in Back(g, Range1(g[i].src))}
=============================================================================
