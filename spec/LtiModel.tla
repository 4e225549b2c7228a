------------------------------ MODULE LtiModel ------------------------------
(* Every small linear graph (operations that copy, negate, halve or scale by  *)
(* an imaginary number, add, subtract, a butterfly, delays) and every input   *)
(* sequence: its clocked execution against the state equations extracted from *)
(* it and against its impulse responses.                                      *)
EXTENDS Lti, Json
Case == JsonDeserialize("model.json")
VARIABLES g, x, st, y
vars == <<g, x, st, y>>
Nd(k, v, src) == [k |-> k, v |-> v, w |-> 0, j |-> 0, so |-> 0, sh |-> 0, src |-> src]
Ports(q) == UNION {{<<i, p>> : p \in 1..q[i]} : i \in DOMAIN q}
(* kinds by position: ports each node offers *)
Kinds == Range1(Case.kinds)
Width(k) == IF k = "r2bfly" THEN 2 ELSE 1
Arity(k) == IF k \in {"add", "sub", "r2bfly"} THEN 2 ELSE 1
Delays(ks) == {i \in DOMAIN ks : ks[i] = "t"}
Source(ks, i) ==   \* ports available to node i: earlier nodes and any delay
  UNION {{<<s, p>> : p \in 1..Width(ks[s])} :
           s \in {s \in DOMAIN ks : s < i \/ ks[s] = "t"}}
Bodies(ks) ==
  LET Choice(i) == IF ks[i] = "in" THEN {<<>>}
                   ELSE IF ks[i] = "t" THEN {<<s>> : s \in Source(ks, Len(ks) + 1)}
                   ELSE [1..Arity(ks[i]) -> Source(ks, i)]
      Ext[i \in 0..Len(ks)] ==
        IF i = 0 THEN {<<>>} ELSE {Append(b, c) : b \in Ext[i - 1], c \in Choice(i)}
  IN Ext[Len(ks)]
Uses(b) == UNION {Range1(b[i]) : i \in DOMAIN b}
Mk(ks, b) ==   \* an output for every port that feeds nothing
  LET n == Len(ks)
      free == SetToSortSeq(Ports([i \in DOMAIN ks |-> Width(ks[i])]) \ Uses(b),
                           LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
      nodes == [i \in 1..n |-> Nd(ks[i], IF ks[i] = "cmul" THEN Case.coef ELSE 0, b[i])]
               \o [o \in 1..Len(free) |-> Nd("out", 0, <<free[o]>>)]
      all == [i \in 1..Len(nodes) |-> i]
  IN [nodes |-> nodes, m |-> P,
      order |-> SelectSeq(all, LAMBDA i : nodes[i].k = "t")
                \o SelectSeq(all, LAMBDA i : nodes[i].k # "t"),
      ins |-> SelectSeq(all, LAMBDA i : nodes[i].k = "in"),
      outs |-> [o \in 1..Len(free) |-> n + o]]
RECURSIVE Back(_, _)
Back(h, S) == LET T == S \cup UNION {{h.nodes[i].src[k][1] : k \in DOMAIN h.nodes[i].src} : i \in S}
              IN IF T = S THEN S ELSE Back(h, T)
Shapes == {<<"in">> \o ks : ks \in UNION {[1..n -> Kinds] : n \in Range1(Case.n)}}
            \* kinds in one fixed order within delays: symmetric variants removed
Good(h) == h.outs # <<>> /\ Back(h, Range1(h.outs)) = DOMAIN h.nodes /\ OrderOK(h)
Init == /\ \E ks \in Shapes : \E b \in Bodies(ks) : g = Mk(ks, b)
        /\ Good(g)
        /\ x = <<>> /\ y = <<>> /\ st = InitState(g)
        /\ PrintT("TR|" \o ToJson(g))
Next == /\ Len(x) < Case.length
        /\ \E u \in Range1(Case.inputs) :
             LET vals == Values(g, st, <<u>>)
             IN /\ x' = Append(x, <<u>>) /\ y' = Append(y, Outs(g, vals))
                /\ st' = NextState(g, vals)
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
(* The extraction describes the execution. *)
Realised == y = Iterate(StateSpace(g), x, P)
Linear == Len(x) = Case.length =>
  LET hs == <<OutResponse(g, 1, Case.length)>>
  IN \A o \in DOMAIN g.outs : [t \in DOMAIN y |-> y[t][o]] = Convolved(hs, x, o, P)
(* An impulse at the input port is an impulse at the input. *)
Injected == x = <<>> => PortResponse(g, 1, 1, Case.length) = OutResponse(g, 1, Case.length)
=============================================================================
