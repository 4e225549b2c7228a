------------------------------ MODULE QuantTrace ------------------------------
(* Recorded quantizations, recodings, sequence operations and simulations     *)
(* with a data type compared with Quant.                                      *)
EXTENDS Quant, TraceBase
VARIABLES tid, l, err

(* values n0, n0 + 1, ... of scale 2^-e (e >= fb) were quantized to got *)
QuantOk(s) ==
  LET d == P2(s.e - s.fb)
      want(n) == Quantized(s.mode, s.ovf, n, d, s.ib + s.fb)
  IN \A i \in DOMAIN s.ns : s.got[i] = want(s.ns[i])
(* vals: per node the values of its output ports, was: the previous iteration *)
SimOk(t, s) ==
  LET dt == t.dt
      val(p) == s.vals[p[1]][p[2]]
      ok(i) == LET nd == t.nodes[i] IN
        CASE nd.k = "in" -> s.vals[i][1] = s.x[nd.n]
          [] nd.k = "t" -> LET z == IF s.was = <<>> THEN nd.v
                                    ELSE s.was[nd.src[1][1]][nd.src[1][2]]
                           IN s.vals[i][1] = z \/ Fits(dt, Cx(z, 1), s.vals[i][1])
          [] nd.k = "out" -> s.vals[i][1] = val(nd.src[1])
          [] nd.k = "c" -> s.vals[i][1] = nd.v
          [] OTHER -> LET r == Exact(nd, [k \in DOMAIN nd.src |-> val(nd.src[k])], dt.fb)
                      IN \A p \in DOMAIN s.vals[i] : Fits(dt, r[p], s.vals[i][p])
      bad == {i \in DOMAIN t.nodes : ~ok(i)}
  IN IF bad = {} THEN "" ELSE "simulated " \o t.nodes[MinOf(bad, 0)].k \o " with a data type differs"
Verdict(t, s) ==
  CASE s.kind = "quant" -> IF QuantOk(s) THEN "" ELSE "quantized value differs"
    [] s.kind = "sim" -> SimOk(t, s)
    [] s.kind = "csd" ->
         FirstBad(<<<<"digits do not sum to the number", Digits(s.d) = s.n>>,
                    <<"digits are not canonical", Canonical(s.d)>>>>)
    [] s.kind = "fcsd" ->  \* the number is n / 2^e
         FirstBad(<<<<"digits do not sum to the number",
                      IF s.f >= s.e THEN Digits(s.d) = s.n * P2(s.f - s.e)
                      ELSE Digits(s.d) * P2(s.e - s.f) = s.n>>,
                    <<"digits are not canonical", Canonical(s.d) /\ (s.d = <<>> \/ Last(s.d) # 0)>>>>)
    [] s.kind = "interleave" -> IF s.y = Woven(s.x) THEN "" ELSE "interleaved sequence differs"
    [] s.kind = "uneven" -> IF s.exc = "ValueError" THEN "" ELSE "uneven sequences interleaved"
    [] s.kind = "down" -> IF s.y = Picked(s.x, s.f, s.p) THEN "" ELSE "downsampled sequence differs"
    [] s.kind = "up" -> IF s.y = Spread(s.x, s.f, s.p) THEN "" ELSE "upsampled sequence differs"
    [] s.kind = "decompose" ->
         IF Len(s.y) = s.f /\ \A p \in 1..s.f : s.y[p] = Picked(s.x, s.f, p - 1) THEN ""
         ELSE "decomposed sequence differs"
TInit == tid \in DOMAIN Traces /\ l = 0 /\ err = ""
TNext ==
  /\ err = "" /\ l < Len(Traces[tid].steps)
  /\ l' = l + 1 /\ tid' = tid
  /\ err' = Verdict(Traces[tid], Traces[tid].steps[l + 1])
  /\ IF err' # "" THEN Say("VIOL", tid, l', err')
     ELSE IF l' = Len(Traces[tid].steps) THEN Say("DONE", tid, l', "") ELSE TRUE
=============================================================================
