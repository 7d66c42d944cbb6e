----------------------------- MODULE Registry -----------------------------
(* The pointer registry: maps pointers to small ids per domain.  A domain   *)
(* is a pair (variant, domain name); a pointer belongs to at most one.      *)
(* Clearing the registry (or shutting the library down) disables pointers:  *)
(* they keep the id 0 until they are removed.                               *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES dom, id    \* registered pointer -> its domain / its id (0: disabled)
rvars == <<dom, id>>

Registered == DOMAIN dom
Active(d)  == {p \in Registered : dom[p] = d /\ id[p] # 0}
Ids(d)     == {id[p] : p \in Active(d)}
Bound(d)   == IF Ids(d) = {} THEN 0 ELSE CHOOSE k \in Ids(d) : \A j \in Ids(d) : j <= k
Fresh(d)   == CHOOSE k \in 1..(Cardinality(Ids(d)) + 1) : k \notin Ids(d) /\ \A j \in 1..(k - 1) : j \in Ids(d)
At(d, k)   == IF k \in Ids(d) THEN CHOOSE p \in Active(d) : id[p] = k ELSE 0
IdOf(p)    == IF p = 0 THEN 0 ELSE IF p \in Registered THEN id[p] ELSE -1   \* -1: error

Without(f, p) == [q \in DOMAIN f \ {p} |-> f[q]]
With(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]

RegInit == dom = <<>> /\ id = <<>>
Put(d, p, r) == IF p = 0 \/ p \in Registered
                THEN r = -1 /\ UNCHANGED rvars
                ELSE r = Fresh(d) /\ dom' = With(dom, p, d) /\ id' = With(id, p, r)
Remove(p, r) == IF p \in Registered
                THEN r = 0 /\ dom' = Without(dom, p) /\ id' = Without(id, p)
                ELSE r = -1 /\ UNCHANGED rvars
Clear == id' = [p \in Registered |-> 0] /\ UNCHANGED dom
Shutdown == Clear

\* ------------------------------------------------------------- invariants
UniqueIds == \A p, q \in Registered : p # q /\ id[p] # 0 /\ dom[p] = dom[q] => id[p] # id[q]
\* An id is only handed out if all smaller ids were in use
Compact == [][\A p \in DOMAIN id' \ DOMAIN id : \A j \in 1..(id'[p] - 1) : j \in Ids(dom'[p])]_rvars
Stable  == [][\A p \in DOMAIN id \cap DOMAIN id' : id'[p] \in {id[p], 0}]_rvars
Inverse == \A p \in Registered : id[p] # 0 => At(dom[p], id[p]) = p /\ id[p] <= Bound(dom[p])
=============================================================================
