---------------------------- MODULE FreezeTrace ----------------------------
(* Judges recorded sessions with frozen functions against Freeze            *)
EXTENDS Freeze, Json, IOUtils

VARIABLES l, progs, cfg
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<l, progs, cfg, mode, have>>

Cur(e) == progs[e.id + 1]
Checks(e) ==
  CASE e.e = "obs" -> LET c == Cur(e) IN
         /\ SameSlots(c.p, c.r, e.s)
         /\ e.b = c.r.b
         /\ e.i = c.p.b
         /\ Len(e.h) = Len(c.h) /\ \A k \in DOMAIN e.h : SameArray(c.h[k], e.h[k])
    [] e.e = "fz" -> e.flag = Scope'
    [] e.e = "mid" -> e.v = <<2, 4, 6, 12>>
    [] e.e = "live" -> e.r = 0 /\ ~e.flag
    [] e.e = "end" -> e.ok
    [] e.e \in {"prog", "cfg"} -> TRUE
    [] OTHER -> FALSE

Describe(e) == ToJson(IF e.e = "obs" THEN LET c == Cur(e) IN
    [cfg |-> cfg, by |-> e.by, id |-> e.id,
     slots |-> IF Len(e.s) = Len(c.p.s) THEN Diff(c.p, c.r, e.s) ELSE {},
     buffers |-> {<<k - 1, c.r.b[k], e.b[k]>> : k \in {q \in DOMAIN c.r.b : c.r.b[q] # e.b[q]}},
     alias |-> {<<k - 1, c.p.b[k], e.i[k]>> : k \in {q \in DOMAIN c.p.b : c.p.b[q] # e.i[q]}},
     hz |-> {<<k, c.p.hz[k], c.h[k], e.h[k]>> : k \in {q \in DOMAIN e.h : ~SameArray(c.h[q], e.h[q])}}]
  ELSE [cfg |-> cfg, mode |-> mode, ev |-> e])
Reject(e) == PrintT(<<"REJECT", l, Describe(e)>>) /\ TLCSet(1, TLCGet(1) + 1)

Keep == UNCHANGED <<mode, have>>
FzStep(e) == CASE e.op = "start" -> Start [] e.op = "pause" -> Pause(e.r) [] e.op = "resume" -> Resume(e.r)
               [] e.op = "stop" -> Stop [] e.op = "abort" -> Abort [] e.op = "dry" -> Dry(e.r)
               [] e.op = "replay" -> Replay [] e.op = "flush" -> Flush

TraceInit == FreezeInit /\ l = 1 /\ progs = <<>> /\ cfg = "" /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ IF e.e = "prog"
                   THEN LET r == TLCEval(Result(e)) q == [p |-> e, r |-> r, h |-> TLCEval([k \in DOMAIN e.hz |-> HzOf(e, r, e.hz[k])])]
                        IN progs' = IF e.id = 0 THEN <<q>> ELSE Append(progs, q)
                   ELSE UNCHANGED progs
                /\ cfg' = IF e.e = "cfg" THEN ToString(<<e.pid, e.k, e.c>>) ELSE cfg
                /\ \/ e.e # "fz" /\ e.e # "cfg" /\ Keep
                   \/ e.e = "cfg" /\ mode' = "idle" /\ have' = FALSE
                   \/ e.e = "fz" /\ (FzStep(e) \/ (~ENABLED FzStep(e) /\ mode' = "idle" /\ Reject(e) /\ UNCHANGED have))
                /\ IF Checks(e) THEN TRUE ELSE Reject(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
