------------------------------ MODULE OpsTrace ------------------------------
(* Validates recorded evaluations of elementary operations against Ops.    *)
(* Every record is one step; rejected records are printed and counted, so  *)
(* that one run reports all of them.                                       *)
EXTENDS Ops, Json, IOUtils, TLC

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

EventOK(e) ==
  /\ e.e = "op"
  /\ \A i \in 1..Len(e.r) : \A j \in 1..Len(e.m[i]) : OpOK(e.op, e.t, e.rt, e.a, e.r[i], e.m[i][j], e.fm, e.h)

Reject(i) == PrintT(<<"REJECT", i, ToJson(Trace[i])>>) /\ TLCSet(1, TLCGet(1) + 1)

Init == l = 1 /\ TLCSet(1, 0)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (IF EventOK(Trace[l]) THEN TRUE ELSE Reject(l))
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
