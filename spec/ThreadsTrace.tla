--------------------------- MODULE ThreadsTrace ------------------------------
(* Judges the recorded history of several threads against Threads.          *)
EXTENDS Threads, Json, IOUtils
VARIABLES l, prog, res
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, prog, res, val>>
None == [n |-> 0]
Has(e, k) == k \in DOMAIN e
Check(e) == CASE e.e \in {"prog", "pub"} -> TRUE
              [] e.e = "obs" -> ~Has(e.v, "err") /\ Ran(prog, res, e.v)
              [] e.e = "use" -> Use(e.v, e.m, e.a, e.r)
              [] e.e = "upd" -> Upd(e.v, e.p, e.c, e.r, e.o)
              [] e.e = "get" -> Get(e.v, e.p, e.r)
              [] e.e = "sum" -> Sum(e.v, e.r)
              [] e.e = "end" -> e.live = 0
              [] OTHER -> FALSE
Describe(e) == ToJson(IF e.e = "obs" THEN [prog |-> prog.id, cfg |-> e.cfg, err |-> IF Has(e.v, "err") THEN e.v.err ELSE "",
                                          slots |-> IF ~Has(e.v, "err") /\ Len(e.v.s) = Len(prog.s) THEN Diff(prog, res, e.v.s) ELSE {}]
                      ELSE [prog |-> -1, cfg |-> ToJson(e), err |-> "", slots |-> {}])
Reject(e) == PrintT(<<"REJECT", l, Describe(e)>>) /\ TLCSet(1, TLCGet(1) + 1)
TraceInit == l = 1 /\ prog = None /\ res = None /\ ThInit /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ IF e.e = "prog" THEN prog' = e /\ res' = TLCEval(Result(e)) ELSE UNCHANGED <<prog, res>>
                /\ IF e.e = "pub" THEN Pub(e.v, e.r) ELSE UNCHANGED val
                /\ IF Check(e) THEN TRUE ELSE Reject(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
