--------------------------------- MODULE Ids ---------------------------------
(* Identities of the components of a graph.  A component has a type and may   *)
(* ask for an identifier (req, "" for none); components are added one after   *)
(* the other, in whatever order a traversal of the graph meets them.          *)
EXTENDS Common
Form(t, n) == t \o ToString(n)
IsForm(id, t, off, max) == \E n \in off..max : id = Form(t, n)

(* One addition.  used: identifiers in use.                                   *)
NextFree(t, used, off) ==
  CHOOSE n \in off..(off + Cardinality(used)) :
    /\ Form(t, n) \notin used
    /\ \A m \in off..(n - 1) : Form(t, m) \in used
Assign(c, used, off) ==
  IF c.req = "" \/ c.req \in used THEN Form(c.t, NextFree(c.t, used, off)) ELSE c.req

(* What every order of additions leads to: ids[i] is the identifier of cs[i].  *)
Unique(ids) == \A i, j \in DOMAIN ids : i # j => ids[i] # ids[j]
Kept(cs, ids) ==      \* a requested identifier is never left unused
  \A i \in DOMAIN cs : cs[i].req = "" \/ cs[i].req \in Range1(ids)
Own(cs, ids, off) ==  \* what was not requested has the form of the type
  \A i \in DOMAIN cs : \/ cs[i].req # "" /\ ids[i] = cs[i].req
                       \/ IsForm(ids[i], cs[i].t, off, off + Len(ids))
Dense(cs, ids, off) ==  \* and leaves no smaller number free
  \A i \in DOMAIN cs : \A n \in off..(off + Len(ids)) :
    (ids[i] = Form(cs[i].t, n) /\ ids[i] # cs[i].req)
      => \A m \in off..(n - 1) : Form(cs[i].t, m) \in Range1(ids)
Taken(cs, ids) ==     \* who lost the requested identifier lost it to a namesake form
  \A i \in DOMAIN cs : (cs[i].req # "" /\ ids[i] # cs[i].req) =>
    \E j \in DOMAIN cs : j # i /\ ids[j] = cs[i].req
Assigned(cs, ids, off) ==
  FirstBad(<<
    <<"two components share an identifier", Unique(ids)>>,
    <<"a requested identifier was dropped although free", Kept(cs, ids) /\ Taken(cs, ids)>>,
    <<"a generated identifier has not its type's form from the offset on", Own(cs, ids, off)>>,
    <<"a generated identifier skips a free number", Dense(cs, ids, off)>>
  >>)
=============================================================================
