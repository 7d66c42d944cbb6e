--------------------------- MODULE VarStoreTrace ---------------------------
(* Validates a recorded history of API calls against VarStore.  The        *)
(* specification is deterministic given the recorded arguments; a history  *)
(* is accepted when every observation agrees.  Disagreements are printed,  *)
(* counted, and the run continues from the specified state.                *)
EXTENDS VarStore, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(e, k) == k \in DOMAIN e
Event(e) ==
  CASE e.e = "lit"   -> Literal(e.o, e.t, e.n, e.x)
    [] e.e = "cnt"   -> Counter(e.o, e.n)
    [] e.e = "mem"   -> FromMemory(e.o, e.t, e.v)
    [] e.e = "dup"   -> Dup(e.o, e.h)
    [] e.e = "free"  -> Free(e.h)
    [] e.e = "op"    -> Arith(e.o, e.op, e.t, e.a)
    [] e.e = "cast"  -> Cast(e.o, e.h, e.t)
    [] e.e = "gather" -> Gather(e.o, e.s, e.i, e.m)
    [] e.e = "gpack" -> GatherPacket(e.o, e.s, e.i, e.m)
    [] e.e = "scat"  -> Scatter(e.h, e.a, e.i, e.m, e.op)
    [] e.e = "exch"  -> Exchange(e.h, e.o, e.v, e.i, e.m)
    [] e.e = "cas"   -> CompareSwap(e.h, e.o, e.o2, e.c, e.v, e.i, e.m)
    [] e.e = "inc"   -> Increment(e.h, e.o, e.i, e.m, e.r)
    [] e.e = "poke"  -> Poke(e.h, e.i, e.x)
    [] e.e = "resize" -> Resize(e.o, e.h, e.n)
    [] e.e = "shrink" -> Shrink(e.o, e.h, e.n)
    [] e.e = "rev"   -> Reverse(e.o, e.h)
    [] e.e = "tile"  -> Tile(e.o, e.h, e.n)
    [] e.e = "rep"   -> Repeat(e.o, e.h, e.n, e.mx)
    [] e.e = "red"   -> Reduce(e.o, e.h, e.op)
    [] e.e = "bred"  -> BlockReduce(e.o, e.h, e.op, e.bs)
    [] e.e = "pre"   -> Prefix(e.o, e.h, e.op, e.bs, e.ex, e.rev, e.idn)
    [] e.e = "dot"   -> Dot(e.o, e.a, e.b)
    [] e.e = "comp"  -> Compress(e.o, e.h)
    [] e.e = "mpush" -> PushMask(e.h)
    [] e.e = "mpop"  -> PopMask
    [] e.e \in {"data", "read", "st", "any", "anya", "perm", "state", "end", "nop"} -> UNCHANGED vars
    [] OTHER -> UNCHANGED vars

\* What the event lets us observe
Check(e) ==
  CASE e.e = "data" -> H[e.h].t = e.t /\ SameV(Val(e.h), e.r)
    [] e.e = "read" -> LET x == At(Val(e.h), e.i + 1) IN x = UNK \/ x = e.r
    [] e.e = "st"   -> H[e.h].t = e.t /\ Len(Val(e.h)) = e.n
    [] e.e = "any"  -> e.any = AnyV(e.h) /\ e.all = AllV(e.h)
    [] e.e = "inc"  -> IncOld(Val(e.h), Val(e.i), Val(e.m), e.r)
    [] e.e = "perm" -> IsStablePerm(e.r, Val(e.h), e.bs)
    [] e.e = "state" -> /\ e.after => (e.s \in {"Evaluated", "Literal", "Undefined"} /\ ~e.dirty)
    [] e.e = "end"  -> e.ok
    [] e.e \in {"crash", "hang", "err"} -> FALSE
    [] OTHER -> TRUE

Describe(e) == IF Has(e, "h") /\ e.h \in DOMAIN H THEN ToJson([spec |-> H[e.h], ev |-> e]) ELSE ToJson([ev |-> e])
Reject(i) == PrintT(<<"REJECT", i, Describe(Trace[i])>>) /\ TLCSet(1, TLCGet(1) + 1)

TraceInit == Init /\ l = 1 /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Event(Trace[l])
             /\ (IF Check(Trace[l]) THEN TRUE ELSE Reject(l))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
