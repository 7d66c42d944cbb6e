----------------------------- MODULE ProgTrace -----------------------------
(* Judges recorded executions of random programs against Prog: "prog"      *)
(* announces a program, each following "obs" is a result that the library   *)
(* produced for it in some configuration (flags, symbolic or evaluated      *)
(* control flow, evaluation points).                                        *)
EXTENDS Prog, Json, IOUtils

VARIABLES l, prog, res
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, prog, res>>
None == [n |-> 0]

Has(e, k) == k \in DOMAIN e
Check(e) == CASE e.e = "prog" -> TRUE
              [] e.e = "obs" -> /\ ~Has(e.v, "err")
                                /\ SameSlots(prog, res, e.v.s)
                                /\ e.v.b = res.b
                                /\ e.v.i = prog.b \* (what other references to the initial contents of memory see)
                                /\ e.v.live = 0
              [] e.e = "end" -> e.ok
              [] e.e = "nop" -> TRUE
              [] OTHER -> FALSE
Describe(e) == ToJson([prog |-> IF Has(prog, "id") THEN prog.id ELSE -1, cfg |-> IF Has(e, "cfg") THEN e.cfg ELSE "",
                       slots |-> IF e.e = "obs" /\ ~Has(e.v, "err") /\ Len(e.v.s) = Len(prog.s) THEN Diff(prog, res, e.v.s) ELSE {},
                       buffers |-> IF e.e = "obs" /\ ~Has(e.v, "err") THEN {<<k - 1, res.b[k], e.v.b[k]>> : k \in {q \in DOMAIN res.b : res.b[q] # e.v.b[q]}} ELSE {},
                       other |-> IF e.e = "obs" /\ ~Has(e.v, "err") THEN ToString(e.v.live) ELSE ToJson(e)])
Reject(e) == PrintT(<<"REJECT", l, Describe(e)>>) /\ TLCSet(1, TLCGet(1) + 1)

TraceInit == l = 1 /\ prog = None /\ res = None /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ IF e.e = "prog" THEN prog' = e /\ res' = TLCEval(Result(e)) ELSE UNCHANGED <<prog, res>>
                /\ IF Check(e) THEN TRUE ELSE Reject(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
