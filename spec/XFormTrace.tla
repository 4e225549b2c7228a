----------------------------- MODULE XFormTrace -----------------------------
(* Chains of transformations of real graphs against what they denote.         *)
EXTENDS XForm, TraceBase
VARIABLES tid, l, err, g
vars == <<tid, l, err, g>>

TInit == /\ tid \in DOMAIN Traces /\ l = 0 /\ err = ""
         /\ g = Traces[tid].g

Struct(a, e, h) ==
  CASE e.op \in {"copy", "insafter", "insafterall", "insbefore", "insbeforeall", "remove",
                 "extract"} -> SameBag(a.nodes, h.nodes)
    [] e.op = "flatten" -> SameLive(a, h)
    [] e.op = "replace" -> SameBag(a.nodes, h.nodes)
    [] e.op = "replacesfg" -> TRUE
    [] e.op = "simplify" ->
         /\ Kinds(h.nodes, {"t"}) <= Kinds(a.nodes, {"t"})
         /\ Len(a.nodes) - Len(h.nodes) = Kinds(a.nodes, {"t"}) - Kinds(h.nodes, {"t"})
         /\ \A i, k \in DOMAIN h.nodes : (i # k /\ IsDelay(h.nodes[i]) /\ IsDelay(h.nodes[k]))
              => ~(h.nodes[i].src = h.nodes[k].src /\ h.nodes[i].v = h.nodes[k].v)
    [] e.op = "rewrite" ->      \* targets (nodes) of one kind become another kind
         IF e.exact
         THEN SameBag([i \in DOMAIN a.nodes |->
                 IF i \in Range1(e.targets)
                 THEN [a.nodes[i] EXCEPT !.k = e.to,
                         !.v = IF a.nodes[i].k = "add" THEN 1
                               ELSE IF a.nodes[i].k = "sub" THEN 0 ELSE @]
                 ELSE a.nodes[i]], h.nodes)
         ELSE Kinds(h.nodes, {"cmul"}) = Kinds(a.nodes, {"cmul"}) - Len(e.targets)
    [] e.op = "expand" -> Kinds(h.nodes, {"sym2p", "ser2p", "par2p", "ser3p", "rfs3p",
                                "r2bfly", "r2difbfly", "r2ditbfly", "r2tfbfly", "r4bfly",
                                "mad", "mads"}) = 0
    [] e.op = "join" -> Len(h.nodes) <= Len(a.nodes) + e.extra
    [] e.op = "unfold" ->
         /\ Len(h.ins) = e.n * Len(a.ins) /\ Len(h.outs) = e.n * Len(a.outs)
         /\ Kinds(h.nodes, {"t"}) = Kinds(a.nodes, {"t"})
         /\ \A i \in DOMAIN a.nodes :
              IsDelay(a.nodes[i]) \/
              Cardinality({q \in DOMAIN h.nodes : Sig(h.nodes[q]) = Sig(a.nodes[i])})
                = e.n * Cardinality({q \in DOMAIN a.nodes :
                                       Sig(a.nodes[q]) = Sig(a.nodes[i])})
         /\ \A i \in DOMAIN a.nodes : IsDelay(a.nodes[i]) =>
              Cardinality({q \in DOMAIN h.nodes : Sig(h.nodes[q]) = Sig(a.nodes[i])})
                = Cardinality({q \in DOMAIN a.nodes : Sig(a.nodes[q]) = Sig(a.nodes[i])})
    [] OTHER -> TRUE

TNext ==
  /\ err = ""
  /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ LET e == Traces[tid].steps[l + 1]
         h == e.h
         a == Edit(g, e)
         X == e.X
     IN /\ g' = h
        /\ err' = IF ~HasOrder(a) THEN "driver: edit closes a delay-free loop"
           ELSE IF ~OrderOK(h) THEN "the result is not a well-formed graph"
           ELSE IF e.op # "unfold" /\ (Len(h.ins) # Len(g.ins) \/ Len(h.outs) # Len(g.outs))
           THEN "the interface changed"
           ELSE IF ~Struct(a, e, h) THEN "wrong structure"
           ELSE IF e.before # e.after THEN "the original graph was changed"
           ELSE IF ~(Range1(e.keep) \subseteq DOMAIN e.attr) THEN "an operation lost its name"
           ELSE IF \E n \in Range1(e.keep) : e.attr[n] # e.attr0[n]
           THEN "an operation lost its latencies or identity"
           ELSE LET want == IF e.op = "unfold" THEN UnfoldedY(g, e.n, X) ELSE Response(a, X)
                    got == Response(h, X)
                IN IF want # got THEN "the function changed"
                   ELSE IF e.y # <<>> /\ e.y # SubSeq(want, 1, Len(e.y))
                   THEN "simulating the result gives another function"
                   ELSE ""
  /\ IF err' # "" THEN Say("VIOL", tid, l', Traces[tid].steps[l'].op \o ": " \o err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
