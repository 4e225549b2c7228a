------------------------------ MODULE LtiTrace ------------------------------
(* What the code says about the behaviour of a linear graph, against Lti.     *)
EXTENDS Lti, TraceBase
VARIABLES tid, l, err
Mat(M) == [i \in DOMAIN M |-> M[i]]
(* a response as returned: a prefix of the true one, the rest of which is zero *)
Prefix(h, got) == Len(got) <= Len(h) /\ \A t \in DOMAIN got : got[t] = h[t]
Same(h, got) == Prefix(h, got) /\ \A t \in DOMAIN h : t > Len(got) => h[t] = 0
SqSum(h, c) == LET r[i \in 0..Len(h)] == IF i = 0 THEN 0 ELSE Add(r[i - 1], Mul(h[i], c[i], P), P)
               IN r[Len(h)]
AllSame(t, s) ==
  \A k \in DOMAIN t.g.ins :
    LET r == NodeResponse(t.g, k, s.n)
    IN \A e \in Range1(s.h) :
         e.k = k => LET h == [i \in 1..s.n |-> r[i][e.node][e.port]]
                    IN IF s.full THEN Same(h, e.y) ELSE Prefix(h, e.y)
FromSame(t, s) ==
  \A e \in Range1(s.h) :
     \E p \in Range1(e.ports) :
        LET r == PortResponse(t.g, e.node, p, s.n)
        IN \A o \in DOMAIN t.g.outs :
             LET h == [i \in 1..s.n |-> r[i][o]]
             IN IF s.full THEN Same(h, e.y[o]) ELSE Prefix(h, e.y[o])
Hof(g, k, o, n) == LET r == OutResponse(g, k, n) IN [i \in 1..n |-> r[i][o]]
(* where the responses may be cut when small values count as zero (integers) *)
Cut(t, s) ==
  \A k \in DOMAIN t.g.ins :
    LET r == NodeResponse(t.g, k, s.n)
        D == Range1(DelaySeq(t.g))
        quiet(i) == /\ \A o \in Range1(t.g.outs) : Abs(r[i][o][1]) <= s.thr
                    /\ \A d \in D : Abs(r[i][d][1]) <= s.thr
        stop == MinOf({i \in 2..s.n : quiet(i)}, s.n)
    IN \A e \in Range1(s.h) :
         e.k = k => LET h == [i \in 1..s.n |-> r[i][e.node][e.port]]
                    IN /\ Prefix(h, e.y)
                       /\ e.y # <<>> => Abs(e.y[Len(e.y)]) > s.thr
                       /\ \A i \in 1..stop : i > Len(e.y) => Abs(h[i]) <= s.thr
Verdict(t, s) ==
  CASE s.kind = "ss" ->
         LET n == 2 * Max({Len(DelaySeq(t.g)), Len(s.A)}) + 1
             ss == [A |-> s.A, B |-> s.B, C |-> s.C, D |-> s.D]
         IN IF ~Shape(ss, s.states, Len(t.g.outs), Len(t.g.ins)) THEN "state matrices have wrong sizes"
            ELSE IF \A k \in DOMAIN t.g.ins :
                      Iterate(ss, Impulse(Len(t.g.ins), k, n), t.g.m) = OutResponse(t.g, k, n)
                 THEN "" ELSE "state equations do not describe the graph"
    [] s.kind = "impulse" -> IF AllSame(t, s) THEN ""
                             ELSE "impulse response is not what an impulse produces"
    [] s.kind = "from" -> IF FromSame(t, s) THEN ""
                          ELSE "response from a node is not what an impulse there produces"
    [] s.kind = "cut" -> IF Cut(t, s) THEN "" ELSE "impulse response cut too early or late"
    [] s.kind = "tf" ->
         IF \A k \in DOMAIN t.g.ins : \A o \in DOMAIN t.g.outs :
              Rational(s.num[k][o], s.den, Hof(t.g, k, o, s.n), t.g.m)
         THEN "" ELSE "transfer function is not that of the graph"
    [] s.kind = "zpk" ->
         IF \A k \in DOMAIN t.g.ins : \A o \in DOMAIN t.g.outs :
              RationalUpToDelay(s.num[k][o], s.den, Hof(t.g, k, o, s.n), t.g.m)
         THEN "" ELSE "zeros, poles and gain are not those of the graph"
    [] s.kind = "norms" ->
         LET R == [k \in DOMAIN t.g.ins |-> NodeResponse(t.g, k, s.n)]
             C == [k \in DOMAIN t.g.ins |-> NodeResponse(s.conj, k, s.n)]
             h(S, k, e) == [i \in 1..s.n |-> S[k][i][e.node][e.port]]
         IN IF \A e \in Range1(s.h) :
                 e.l2 = SumFn([k \in DOMAIN t.g.ins |-> SqSum(h(R, k, e), h(C, k, e))],
                              DOMAIN t.g.ins) % P
            THEN "" ELSE "l2 norm is not that of the impulse responses"
    [] s.kind = "l1" ->
         LET R == [k \in DOMAIN t.g.ins |-> NodeResponse(t.g, k, s.n)]
         IN IF \A e \in Range1(s.h) :
                 e.l1 = SumFn([k \in DOMAIN t.g.ins |->
                           SumSeq([i \in 1..s.n |-> Abs(R[k][i][e.node][e.port])])], DOMAIN t.g.ins)
            THEN "" ELSE "l1 norm is not that of the impulse responses"
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid], Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
