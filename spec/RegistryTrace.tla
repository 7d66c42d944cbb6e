--------------------------- MODULE RegistryTrace ---------------------------
(* Judges recorded histories of registry calls                              *)
EXTENDS Registry, Json, IOUtils, TLC

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) == CASE e.e = "put"    -> Put(e.d, e.p, e.r)
             [] e.e = "remove" -> Remove(e.p, e.r)
             [] e.e \in {"clear", "shutdown"} -> Clear
             [] OTHER -> UNCHANGED rvars
\* The specified outcome, used to continue after a disagreement
Fix(e) == CASE e.e = "put"    -> Put(e.d, e.p, IF e.p = 0 \/ e.p \in Registered THEN -1 ELSE Fresh(e.d))
            [] e.e = "remove" -> Remove(e.p, IF e.p \in Registered THEN 0 ELSE -1)
Good(e) ==
  CASE e.e = "put"    -> e.r = IF e.p = 0 \/ e.p \in Registered THEN -1 ELSE Fresh(e.d)
    [] e.e = "remove" -> e.r = IF e.p \in Registered THEN 0 ELSE -1
    [] e.e = "id"     -> e.r = IdOf(e.p)
    [] e.e = "bound"  -> e.r = Bound(e.d)
    [] e.e = "ptr"    -> LET p == At(e.d, e.k) IN IF p = 0 THEN e.r \in {0, -1} /\ (e.k = 0 => e.r = 0) ELSE e.r = p
    [] e.e = "peek"   -> IF Active(e.d) = {} THEN e.r = 0 ELSE e.r \in Active(e.d)
    [] e.e = "all"    -> Len(e.r) = Bound(e.d) /\ \A k \in DOMAIN e.r : e.r[k] = At(e.d, k)
    [] e.e \in {"clear", "shutdown", "end"} -> TRUE
    [] OTHER -> FALSE
Reject(e) == PrintT(<<"REJECT", l, ToJson([ev |-> e, registered |-> Registered])>>) /\ TLCSet(1, TLCGet(1) + 1)
TraceInit == RegInit /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ IF Good(e) THEN Step(e) ELSE Reject(e) /\ (IF e.e \in {"put", "remove"} THEN Fix(e) ELSE UNCHANGED rvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
Inv == UniqueIds /\ Inverse
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
