---------------------------- MODULE RegistryMC ----------------------------
(* Exhaustive exploration of the registry protocol                          *)
EXTENDS Registry
CONSTANTS Doms, Ptrs
Next == \/ \E d \in Doms, p \in Ptrs \cup {0} : \E r \in -1..(Cardinality(Ptrs) + 1) : Put(d, p, r)
        \/ \E p \in Ptrs, r \in {-1, 0} : Remove(p, r)
        \/ Clear
Spec == RegInit /\ [][Next]_rvars
=============================================================================
