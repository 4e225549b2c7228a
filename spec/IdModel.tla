------------------------------- MODULE IdModel -------------------------------
(* All small sets of components, added in every order.                        *)
EXTENDS Ids, Json
Case == JsonDeserialize("model.json")
VARIABLES cs, off, ids, left
vars == <<cs, off, ids, left>>
Init == /\ cs \in UNION {[1..n -> [t : Range1(Case.types), req : Range1(Case.reqs)]] : n \in Range1(Case.n)}
        /\ off \in Range1(Case.offs)
        /\ ids = [i \in DOMAIN cs |-> ""]
        /\ left = DOMAIN cs
        /\ PrintT("TR|" \o ToJson([cs |-> cs, off |-> off]))
Used == {ids[i] : i \in DOMAIN cs} \ {""}
Next == \E i \in left : /\ ids' = [ids EXCEPT ![i] = Assign(cs[i], Used, off)]
                        /\ left' = left \ {i}
                        /\ UNCHANGED <<cs, off>>
Spec == Init /\ [][Next]_vars
Right == left = {} => Assigned(cs, ids, off) = ""
=============================================================================
