----------------------------- MODULE MemTrace -----------------------------
(* Judges recorded histories of the allocator and the execution queue       *)
EXTENDS Mem, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

NewOf(e, n, t) == New(e.o, e.be, n, t, e.hi, e.lo)
Good(e) ==
  CASE e.e = "malloc" -> IF e.n = 0 THEN e.null ELSE ~e.null /\ e.lo % 64 = 0 /\ Disjoint(blk, NewOf(e, e.n, e.t))
    [] e.e = "mig" -> LET rest == IF e.mv THEN Del(blk, e.h) ELSE blk IN Disjoint(rest, NewOf(e, blk[e.h].n, e.t)) /\ e.lo % 64 = 0 /\ (e.mv /\ blk[e.h].be = e.be => e.same)
    [] e.e = "dev" -> e.r = -1
    [] e.e = "hr"  -> Same(blk[e.h].v, e.v)
    [] e.e = "hf"  -> Owed(e.t) # <<>> /\ e.k = Ran(e.t) /\ Same(Head(Owed(e.t)), e.v)
    [] e.e = "sync" -> Synced(e.t)
    [] e.e = "cpy" -> e.sync => Synced(e.t)
    [] e.e = "evq" -> (e.r = 1 => EvDone(e.h)) /\ (ev[e.h].t = -1 => e.r = 1)
    [] e.e = "evw" -> EvDone(e.h)
    [] e.e = "evq1" -> e.r = 1
    [] e.e = "evt" -> IF ev[e.a].tm /\ ev[e.b].tm /\ ev[e.a].t # -1 /\ ev[e.b].t # -1 THEN e.r = 0 /\ e.fin ELSE e.r = -1
    [] e.e = "wm"  -> e.r >= peak[e.be]
    [] e.e = "wmend" -> e.r = 0
    [] e.e = "bad" -> e.r = -1
    [] e.e = "null" -> e.r
    [] e.e \in {"free", "hw", "set", "kern", "agg", "enq", "nop", "evnew", "evrec", "evdel", "give", "flushcache", "wmclear", "end"} -> TRUE
    [] OTHER -> FALSE
Step(e) ==
  CASE e.e = "malloc" -> IF e.null THEN UNCHANGED mvars ELSE Malloc(e.o, NewOf(e, e.n, e.t))
    [] e.e = "free" -> FreeB(e.h)
    [] e.e = "hw"   -> HostWrite(e.h, e.off, e.v)
    [] e.e = "set"  -> Memset(e.h, e.off, e.n, e.is, e.x)
    [] e.e = "cpy"  -> Memcpy(e.s, e.so, e.h, e.off, e.n)
    [] e.e = "kern" -> Kernel(e.s, e.h, e.n, e.c)
    [] e.e = "agg"  -> Aggregate(e.h, e.a)
    [] e.e = "enq"  -> Enqueue(e.t, e.h)
    [] e.e = "hf"   -> IF Owed(e.t) # <<>> THEN RunHost(e.t) ELSE UNCHANGED mvars
    [] e.e = "mig"  -> Migrate(e.h, e.o, e.be, e.mv, [NewOf(e, blk[e.h].n, e.t) EXCEPT !.be = IF e.mv THEN e.be ELSE -1])
    [] e.e = "give" -> Give(e.h, e.t)
    [] e.e = "evnew" -> EvNew(e.o, e.tm)
    [] e.e = "evrec" -> EvRec(e.h, e.t)
    [] e.e = "evdel" -> EvDel(e.h)
    [] e.e = "wmclear" -> WmClear
    [] OTHER -> UNCHANGED mvars
Describe(e) == ToJson([ev |-> e, spec |-> IF "h" \in DOMAIN e /\ e.h \in DOMAIN blk THEN blk[e.h].v ELSE IF e.e = "hf" THEN Owed(e.t) ELSE IF e.e = "wm" THEN <<peak[e.be]>> ELSE <<>>])
Reject(e) == PrintT(<<"REJECT", l, Describe(e)>>) /\ TLCSet(1, TLCGet(1) + 1)
TraceInit == MemInit /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN Step(e) /\ (IF Good(e) THEN TRUE ELSE Reject(e))
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
