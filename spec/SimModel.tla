------------------------------ MODULE SimModel ------------------------------
(* Exhaustive design model of the simulation interface: every sequence of     *)
(* calls up to a bound on a small graph with two delays.  Each behaviour is   *)
(* emitted and replayed on a real Simulation.                                 *)
EXTENDS Dataflow, Json
Case == JsonDeserialize("model.json")
G == Case.g
X == Case.X
Depth == Case.depth
VARIABLES hist, it, st, saved, out, base
vars == <<hist, it, st, saved, out, base>>

Iter(s, i, save) ==
  LET vals == Values(G, s.st, X[i + 1])
  IN [st |-> NextState(G, vals), out |-> Outs(G, vals),
      saved |-> IF save THEN Append(s.saved, Observed(G, vals)) ELSE s.saved]
Run(n, save) == FoldLeft(LAMBDA s, i : Iter(s, i, save),
                         [st |-> st, out |-> out, saved |-> saved],
                         [k \in 1..(IF n > it THEN n - it ELSE 0) |-> it + k - 1])

Init == /\ hist = <<>> /\ it = 0 /\ st = InitState(G) /\ saved = <<>> /\ out = <<>>
        /\ base = 0

Advance(op, n, tgt, save) ==
  LET r == Run(tgt, save)
  IN /\ tgt <= Len(X)
     /\ it' = IF tgt > it THEN tgt ELSE it
     /\ st' = r.st /\ saved' = r.saved /\ out' = r.out
     /\ hist' = Append(hist, [op |-> op, n |-> n, save |-> save])
     /\ UNCHANGED <<base>>
Step(s) == Advance("step", 0, it + 1, s)
For(n, s) == Advance("for", n, it + n, s)
Until(n, s) == Advance("until", n, n, s)
ClearRes == /\ saved' = <<>>
            /\ hist' = Append(hist, [op |-> "clearres", n |-> 0, save |-> FALSE])
            /\ UNCHANGED <<it, st, out, base>>
ClearSt == /\ st' = InitState(G) /\ base' = it
           /\ hist' = Append(hist, [op |-> "clearst", n |-> 0, save |-> FALSE])
           /\ UNCHANGED <<it, saved, out>>
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in BOOLEAN : Step(s)
           \/ \E n \in {0, 2} : For(n, TRUE)
           \/ For(3, FALSE)
           \/ \E n \in {1, 3} : Until(n, TRUE)
           \/ ClearRes
           \/ ClearSt
Spec == Init /\ [][Next]_vars

(* Dividing the iterations over calls does not matter: the state is that of an *)
(* undivided run of the iterations since the state was last cleared.           *)
Undivided ==
  st = FoldLeft(LAMBDA s, i : NextState(G, Values(G, s, X[i + 1])), InitState(G),
                [k \in 1..(it - base) |-> base + k - 1])
(* Saving is observational: saved results are those of iterations that ran.    *)
SavedOK == Len(saved) <= it
Emit == Len(hist') = Depth => PrintT("TR|" \o ToJson(hist'))
=============================================================================
