------------------------------- MODULE GenModel -------------------------------
(* All small generator expressions, built one node at a time, with the laws   *)
(* that connect the kinds of generators.                                      *)
EXTENDS Gen, Json
Case == JsonDeserialize("model.json")
Leaves == Range1(Case.leaves)
Unary == Range1(Case.unary)
Binary == Range1(Case.binary)
VARIABLE e
Init == e \in {<<n>> : n \in Leaves}
Un(n, i) == [n EXCEPT !.x = i]
Bin(k, i, j) == [k |-> k, a |-> 0, b |-> 0, vs |-> <<>>, x |-> i, y |-> j]
Put(f) == e' = f /\ PrintT("TR|" \o ToJson([e |-> f]))
Next ==
  /\ Len(e) < Case.size
  /\ \/ \E n \in Unary : Put(Append(e, Un(n, Len(e))))
     \/ \E k \in Binary : \E n \in Leaves :
          Len(e) + 2 <= Case.size
          /\ \/ Put(e \o <<n, Bin(k, Len(e), Len(e) + 1)>>)
             \/ Put(e \o <<n, Bin(k, Len(e) + 1, Len(e))>>)
     \/ \E k \in Binary : Put(Append(e, Bin(k, Len(e), Len(e))))
Spec == Init /\ [][Next]_e
Window == -4..6
Laws ==
  \A t \in Window :
    LET d == Append(e, [k |-> "delay", a |-> 2, b |-> 0, vs |-> <<>>, x |-> Len(e), y |-> 0])
        u == Append(e, [k |-> "up", a |-> 3, b |-> 1, vs |-> <<>>, x |-> Len(e), y |-> 0])
        w == Append(u, [k |-> "down", a |-> 3, b |-> 1, vs |-> <<>>, x |-> Len(u), y |-> 0])
        z == Append(e, Bin("sub", Len(e), Len(e)))
    IN /\ Value(d, t) = Value(e, t - 2)
       /\ Value(w, t) = Value(e, t)
       /\ Value(e, t) # Undef => Value(z, t) = 0
       /\ Value(e, t) \in -1..(P - 1)
=============================================================================
