----------------------------- MODULE DesignModel -----------------------------
(* The hardware of a schedule, clock cycle by clock cycle: pipelined elements *)
(* that start their operation when its time in the period comes, a cell per   *)
(* value that is kept, written when the value arrives and read before it is   *)
(* written, and direct connections for values used as they arrive.  For every *)
(* small graph, every start time and latency and every number of laps that    *)
(* lets values live for up to a period, it computes what the schedule means.  *)
EXTENDS Design, Json
CONSTANTS T, Lats, Periods
VARIABLES d, exp, c, pipe, cell, seen
vars == <<d, exp, c, pipe, cell, seen>>

(* in (1), A (2) with two operands, B (3), an output of each (4 and 5).        *)
Kinds == <<"in", "addsub", "cmul", "out", "out">>
Wires == {<<<<1, 2, 1>>, <<a, 2, 2>>, <<b, 3, 1>>, <<3, 4, 1>>, <<2, 5, 1>>>> :
            a \in {1, 2, 3}, b \in {1, 2}}
Op(i, s, lat) ==
  [k |-> Kinds[i], v |-> 0, w |-> 0, j |-> 0, c |-> IF i = 3 THEN <<3, 0>> ELSE Zero, s |-> s,
   lat |-> IF i = 1 THEN <<0>> ELSE IF i \in {2, 3} THEN <<lat>> ELSE <<>>]
Graphs ==
  {[T |-> T, ops |-> [i \in 1..5 |-> Op(i, s[i], IF i = 2 THEN la ELSE lb)],
    edges |-> [i \in 1..5 |-> [u |-> w[i][1], p |-> 1, v |-> w[i][2], q |-> w[i][3], laps |-> 0]]] :
     w \in Wires, s \in [1..5 -> 0..(T - 1)], la \in Lats, lb \in Lats}
Fits(g, e) == {n \in 0..(2 + MaxOf(Lats, 0)) : LET x == Life(g, [e EXCEPT !.laps = n]) IN x >= 0 /\ x <= T}
Laps(g) ==
  LET F(i) == Fits(g, g.edges[i])
  IN {<<n1, n2, n3, n4, n5>> : n1 \in F(1), n2 \in F(2), n3 \in F(3), n4 \in F(4), n5 \in F(5)}
With(g, f) == [g EXCEPT !.edges = [i \in DOMAIN @ |-> [@[i] EXCEPT !.laps = f[i]]]]

Sample(n) == <<(7 * n * n + 3 * n + 1) % M, 0>>
Start(g) == [n \in 1..Periods |-> [v \in DOMAIN g.ops |-> Sample((n - 1) * T + g.ops[v].s)]]
Init ==
  /\ \E g \in Graphs : \E f \in Laps(g) : d = With(g, f)
  /\ exp = Computed(d, Order(d), Start(d))
  /\ c = 0
  /\ pipe = [u \in 1..3 |-> [k \in 1..(IF u = 1 THEN 0 ELSE d.ops[u].lat[1]) |-> Zero]]
  /\ cell = [u \in 1..3 |-> Zero]
  /\ seen = <<>>

Now == c % T
Due(v) == d.ops[v].s = Now
Junk == <<2011, 5>>
(* what is at the output of an element in this cycle; something else when it   *)
(* is not the time                                                            *)
Out(u) == IF u = 1 THEN (IF Due(1) THEN Sample(c) ELSE Junk) ELSE pipe[u][Len(pipe[u])]
Into1(v, q) == LET e == Edge(d, v, q) IN IF Life(d, e) = 0 THEN Out(e.u) ELSE cell[e.u]
Comes(u) == (d.ops[u].s + d.ops[u].lat[1]) % T = Now
Next ==
  /\ c < T * Periods
  /\ pipe' = [u \in 1..3 |->
       IF u = 1 THEN <<>>
       ELSE <<IF Due(u) THEN Result(d.ops[u], [q \in 1..Arity(d, u) |-> Into1(u, q)]) [1] ELSE Junk>>
            \o SubSeq(pipe[u], 1, Len(pipe[u]) - 1)]
  /\ cell' = [u \in 1..3 |-> IF Comes(u) THEN Out(u) ELSE cell[u]]
  /\ seen' = [v \in {w \in 4..5 : Due(w)} |-> Into1(v, 1)]
  /\ c' = c + 1
  /\ UNCHANGED <<d, exp>>
  /\ IF c' = T * Periods THEN PrintT("TR|" \o ToJson(d)) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* After cycle c - 1, in period n. *)
Correct ==
  c > 0 => LET n == (c - 1) \div T + 1 IN \A v \in DOMAIN seen : seen[v] = exp[n][v][1]
Executable == Order(d) # <<>>
=============================================================================
