-------------------------------- MODULE Conn --------------------------------
(* Connections between ports and signals.  A state has signals 1..n, each with *)
(* a source (an output port) and a destination (an input port), 0 for none;   *)
(* what the ports list is derived from that, so that both sides agree by      *)
(* construction.  Step gives the effect of every connecting, reconnecting and *)
(* disconnecting call; a rejected call leaves the state as it is.             *)
EXTENDS Common

(* st = [src, dst : sequences over the signals, nout, nin : ports]             *)
OutList(st, p) == {s \in DOMAIN st.src : st.src[s] = p}
InSig(st, q) == {s \in DOMAIN st.dst : st.dst[s] = q}
Free(st, q) == InSig(st, q) = {}
Fresh(st) == Len(st.src) + 1
Sig(st, p, q) == [st EXCEPT !.src = Append(@, p), !.dst = Append(@, q)]
Ok(st, r) == [st |-> st, exc |-> FALSE, ret |-> r]
Bad(st) == [st |-> st, exc |-> TRUE, ret |-> 0]

SetSrc(st, s, p) == IF p = 0 THEN IF st.src[s] = 0 THEN Ok(st, 0) ELSE Bad(st)
                    ELSE Ok([st EXCEPT !.src[s] = p], 0)
SetDst(st, s, q) == IF q = 0 THEN IF st.dst[s] = 0 THEN Ok(st, 0) ELSE Bad(st)
                    ELSE IF Free(st, q) \/ st.dst[s] = q THEN Ok([st EXCEPT !.dst[s] = q], 0)
                    ELSE Bad(st)
(* A chain of k delays in front of input port q: delay i has the new ports     *)
(* nout + i and nin + i, delay 1 being next to q; what fed q feeds delay k.    *)
RECURSIVE Chain(_, _, _)
Chain(st, q, k) ==
  IF k = 0 THEN <<st, q>>
  ELSE LET st1 == [Sig(st, st.nout + 1, q) EXCEPT !.nout = @ + 1, !.nin = @ + 1]
       IN Chain(st1, st1.nin, k - 1)
DelayStep(st, q, k) ==
  LET fed == InSig(st, q)
      cut == [st EXCEPT !.dst = [s \in DOMAIN st.dst |-> IF s \in fed THEN 0 ELSE st.dst[s]]]
      ch == Chain(cut, q, k)
      end == ch[2]
  IN Ok([ch[1] EXCEPT !.dst = [s \in DOMAIN @ |-> IF s \in fed THEN end ELSE @[s]]], end)
(* A new operation with one output and an input for every source.              *)
RECURSIVE Wire(_, _, _)
Wire(st, xs, k) ==
  IF k > Len(xs) THEN st
  ELSE LET x == xs[k]  q == st.nin - Len(xs) + k
       IN Wire(CASE x.k = "out" -> Sig(st, x.i, q)
                 [] x.k = "sig" -> [st EXCEPT !.dst[x.i] = q]
                 [] OTHER -> st, xs, k + 1)
NewOp(st, xs) ==
  IF \E k \in DOMAIN xs : xs[k].k = "bad" THEN Bad(st)
  ELSE Ok(Wire([st EXCEPT !.nin = @ + Len(xs), !.nout = @ + 1], xs, 1), 0)

Step(st, e) ==
  CASE e.a = "setsrc" -> SetSrc(st, e.s, e.p)
    [] e.a = "setdst" -> SetDst(st, e.s, e.q)
    [] e.a = "setsrcsig" -> SetSrc(st, e.s, st.src[e.t])
    [] e.a = "setdstsig" -> SetDst(st, e.s, st.dst[e.t])
    [] e.a = "setsrcbad" -> Bad(st)
    [] e.a = "setdstbad" -> Bad(st)
    [] e.a = "rmsrc" -> Ok([st EXCEPT !.src[e.s] = 0], 0)
    [] e.a = "rmdst" -> Ok([st EXCEPT !.dst[e.s] = 0], 0)
    [] e.a = "outadd" -> IF st.src[e.s] = e.p THEN Bad(st) ELSE SetSrc(st, e.s, e.p)
    [] e.a = "inadd" -> IF ~Free(st, e.q) THEN Bad(st) ELSE SetDst(st, e.s, e.q)
    [] e.a = "outrm" -> IF st.src[e.s] # e.p THEN Bad(st)
                        ELSE Ok([st EXCEPT !.src[e.s] = 0], 0)
    [] e.a = "inrm" -> IF st.dst[e.s] # e.q THEN Bad(st)
                       ELSE Ok([st EXCEPT !.dst[e.s] = 0], 0)
    [] e.a = "outclr" -> Ok([st EXCEPT !.src = [s \in DOMAIN @ |-> IF @[s] = e.p THEN 0 ELSE @[s]]], 0)
    [] e.a = "inclr" -> Ok([st EXCEPT !.dst = [s \in DOMAIN @ |-> IF @[s] = e.q THEN 0 ELSE @[s]]], 0)
    [] e.a = "connect" -> IF Free(st, e.q) THEN Ok(Sig(st, e.p, e.q), Fresh(st)) ELSE Bad(st)
    [] e.a = "connsig" -> IF Free(st, e.q) THEN Ok(SetDst(st, e.s, e.q).st, e.s) ELSE Bad(st)
    [] e.a = "connbad" -> Bad(st)
    [] e.a = "new" -> IF e.q = 0 \/ Free(st, e.q) THEN Ok(Sig(st, e.p, e.q), Fresh(st)) ELSE Bad(st)
    [] e.a = "newbad" -> Bad(st)
    [] e.a = "swap" -> Ok([st EXCEPT !.dst = [s \in DOMAIN @ |->
                             IF @[s] = e.p THEN e.q ELSE IF @[s] = e.q THEN e.p ELSE @[s]]], 0)
    [] e.a = "delay" -> DelayStep(st, e.q, e.t)
    [] e.a = "newop" -> NewOp(st, e.xs)

OnePerInput(st) == \A q \in 1..st.nin : Cardinality(InSig(st, q)) <= 1
=============================================================================
