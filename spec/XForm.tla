-------------------------------- MODULE XForm -------------------------------
(* Transformations of a graph: what each of them denotes.                     *)
EXTENDS Dataflow

(* Some topological order of a graph without delay-free loops. *)
RECURSIVE Topo(_, _)
Topo(nodes, done) ==
  LET have == Range1(done)
      rest == (DOMAIN nodes) \ have
      ready == {i \in rest : \A k \in DOMAIN nodes[i].src : nodes[i].src[k][1] \in have}
  IN IF ready = {} THEN done ELSE Topo(nodes, done \o SetToSeq(ready))
TopoOrder(nodes) ==
  Topo(nodes, SetToSeq({i \in DOMAIN nodes : IsDelay(nodes[i]) \/ nodes[i].k = "gone"}))
Ordered(g) == [g EXCEPT !.order = TopoOrder(g.nodes)]
HasOrder(g) == Len(g.order) = Len(g.nodes)

Redirect(src, f) == [k \in DOMAIN src |-> IF src[k] \in DOMAIN f THEN f[src[k]] ELSE src[k]]
WithSrc(nd, src) == [k |-> nd.k, v |-> nd.v, w |-> nd.w, j |-> nd.j, so |-> nd.so,
                     sh |-> nd.sh, src |-> src]

(* A one-input one-output node behind every listed output port of node i. *)
InsAfter(g, i, ports, nd) ==
  LET n == Len(g.nodes)
      new == [k \in DOMAIN ports |-> WithSrc(nd, <<<<i, ports[k]>>>>)]
      f == [s \in {<<i, ports[k]>> : k \in DOMAIN ports} |->
              <<n + (CHOOSE k \in DOMAIN ports : ports[k] = s[2]), 1>>]
  IN [g EXCEPT !.nodes = [q \in DOMAIN g.nodes |->
        WithSrc(g.nodes[q], Redirect(g.nodes[q].src, f))] \o new]
(* One node with as many inputs and outputs as node i has outputs behind it. *)
InsAfterAll(g, i, cnt, nd) ==
  LET n == Len(g.nodes)
      f == [s \in {<<i, p>> : p \in 1..cnt} |-> <<n + 1, s[2]>>]
  IN [g EXCEPT !.nodes = [q \in DOMAIN g.nodes |->
        WithSrc(g.nodes[q], Redirect(g.nodes[q].src, f))]
        \o <<WithSrc(nd, [p \in 1..cnt |-> <<i, p>>])>>]
(* A node before every listed input port of node i. *)
InsBefore(g, i, ports, nd) ==
  LET n == Len(g.nodes)
      new == [k \in DOMAIN ports |-> WithSrc(nd, <<g.nodes[i].src[ports[k]]>>)]
      at(q) == CHOOSE k \in DOMAIN ports : ports[k] = q
  IN [g EXCEPT !.nodes = [q \in DOMAIN g.nodes |->
        IF q # i THEN g.nodes[q]
        ELSE WithSrc(g.nodes[q], [p \in DOMAIN g.nodes[q].src |->
               IF p \in Range1(ports) THEN <<n + at(p), 1>> ELSE g.nodes[q].src[p]])]
        \o new]
InsBeforeAll(g, i, nd) ==
  LET n == Len(g.nodes)
  IN [g EXCEPT !.nodes = [q \in DOMAIN g.nodes |->
        IF q # i THEN g.nodes[q]
        ELSE WithSrc(g.nodes[q], [p \in DOMAIN g.nodes[q].src |-> <<n + 1, p>>])]
        \o <<WithSrc(nd, g.nodes[i].src)>>]
Replace(g, i, nd) == [g EXCEPT !.nodes[i] = WithSrc(nd, g.nodes[i].src)]
RemoveNode(g, i) ==
  LET f == [s \in {<<i, p>> : p \in DOMAIN g.nodes[i].src} |-> g.nodes[i].src[s[2]]]
  IN [g EXCEPT !.nodes = [q \in DOMAIN g.nodes |->
        IF q = i THEN [WithSrc(g.nodes[q], <<>>) EXCEPT !.k = "gone"]
        ELSE WithSrc(g.nodes[q], Redirect(g.nodes[q].src, f))]]

Edit(g, e) ==
  CASE e.op = "insafter" -> Ordered(InsAfter(g, e.i, e.ports, e.nd))
    [] e.op = "insafterall" -> Ordered(InsAfterAll(g, e.i, Len(e.ports), e.nd))
    [] e.op = "insbefore" -> Ordered(InsBefore(g, e.i, e.ports, e.nd))
    [] e.op = "insbeforeall" -> Ordered(InsBeforeAll(g, e.i, e.nd))
    [] e.op = "replace" -> Ordered(Replace(g, e.i, e.nd))
    [] e.op = "remove" -> Ordered(RemoveNode(g, e.i))
    [] OTHER -> g      \* copy, flatten, extract, rewrite, join, simplify, swap

(* The multiset of operations with their parameters, as counts. *)
Sig(nd) == <<nd.k, nd.v, nd.w, nd.j, nd.so, nd.sh>>
Bag(nodes) == LET live == {i \in DOMAIN nodes : nodes[i].k # "gone"}
              IN [s \in {Sig(nodes[i]) : i \in live} |->
                    Cardinality({i \in live : Sig(nodes[i]) = s})]
Kinds(nodes, K) == Cardinality({i \in DOMAIN nodes : nodes[i].k \in K})
SameBag(a, b) == Bag(a) = Bag(b)

(* Nodes from which an output is reached; the others may be dropped. *)
RECURSIVE Back(_, _)
Back(nodes, S) ==
  LET T == S \cup {nodes[i].src[k][1] : <<i, k>> \in
             {p \in S \X (1..4) : p[2] \in DOMAIN nodes[p[1]].src}}
  IN IF T = S THEN S ELSE Back(nodes, T)
LiveNodes(g) ==
  LET L == Back(g.nodes, {g.outs[k] : k \in DOMAIN g.outs} \cup
                         {g.ins[k] : k \in DOMAIN g.ins})
  IN [i \in DOMAIN g.nodes |->
        IF i \in L THEN g.nodes[i] ELSE [g.nodes[i] EXCEPT !.k = "gone"]]
SameLive(a, h) ==
  /\ SameBag(LiveNodes(a), LiveNodes(h))
  /\ LET A == Bag(a.nodes)  H == Bag(h.nodes)
     IN \A s \in DOMAIN H : s \in DOMAIN A /\ H[s] <= A[s]

(* Unfolding: J outputs of the unfolded graph at block t are the outputs at   *)
(* times J*t, J*t+1, ... of the original fed with the interleaved inputs.     *)
InterleaveX(X, f, n) == [k \in 1..(f * Len(X)) |->
     LET t == (k - 1) \div f   c == (k - 1) % f
     IN [i \in 1..n |-> X[t + 1][c * n + i]]]
UnfoldedY(g, f, X) ==
  LET y == Response(g, InterleaveX(X, f, Len(g.ins)))
      no == Len(g.outs)
  IN [t \in 1..Len(X) |-> [k \in 1..(f * no) |->
        y[f * (t - 1) + ((k - 1) \div no) + 1][((k - 1) % no) + 1]]]
=============================================================================
