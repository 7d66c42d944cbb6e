---------------------------- MODULE CacheTrace ------------------------------
(* Judges recorded histories of sessions that share a kernel cache.         *)
EXTENDS Cache, Json, IOUtils
P == INSTANCE Prog
VARIABLES l, progs, res, irs
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, progs, res, irs, cvars>>
Has(e, k) == k \in DOMAIN e
Set(q) == {q[i] : i \in DOMAIN q}
Results(e) == /\ ~Has(e.r.v, "err") /\ P!SameSlots(progs[e.p], res[e.p], e.r.v.s) /\ e.r.v.b = res[e.p].b
\* equal hashes <=> equal code
SameCode(ks) == \A i \in DOMAIN ks : /\ ks[i].h \in DOMAIN irs => irs[ks[i].h] = ks[i].ir
                                     /\ \A h \in DOMAIN irs : irs[h] = ks[i].ir => h = ks[i].h
Check(e) == CASE e.e = "prog" -> TRUE
              [] e.e = "run" -> Results(e) /\ SameCode(e.r.k) /\ SameKernels(e.s, e.p, e.r.k) /\ e.r.st = (ses')[e.s].st /\ pend'.ok
              [] e.e = "ls" -> Look(Set(e.h), e.tmp, e.unk, e.lost, Set(e.old))
              [] e.e = "start" -> e.ok /\ (e.sweep => e.swept)
              [] e.e \in {"flush", "reinit", "stop"} -> e.ok
              [] e.e = "died" -> e.injected
              [] e.e \in {"kill", "damage", "end"} -> TRUE
              [] OTHER -> FALSE
Describe(e) == ToJson(IF e.e = "run" THEN [e |-> "run", s |-> e.s, p |-> e.p, k |-> e.r.k, st |-> e.r.st, want |-> (ses')[e.s].st, results |-> Results(e), disk |-> ToString(disk)]
                      ELSE [e |-> e.e, s |-> IF Has(e, "s") THEN e.s ELSE -1, p |-> -1, k |-> <<>>, st |-> <<>>, want |-> <<>>, results |-> TRUE, disk |-> ToString(<<disk, pend>>) \o ToJson(e)])
Reject(e) == PrintT(<<"REJECT", l, Describe(e)>>) /\ TLCSet(1, TLCGet(1) + 1)
TraceInit == l = 1 /\ progs = <<>> /\ res = <<>> /\ irs = <<>> /\ CInit /\ TLCSet(1, 0)
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                /\ IF e.e = "prog" THEN progs' = Put(progs, e.id, e) /\ res' = Put(res, e.id, TLCEval(P!Result(e))) ELSE UNCHANGED <<progs, res>>
                /\ irs' = IF e.e = "run" THEN [h \in DOMAIN irs \cup {e.r.k[i].h : i \in DOMAIN e.r.k} |-> IF h \in DOMAIN irs THEN irs[h] ELSE e.r.k[CHOOSE i \in DOMAIN e.r.k : e.r.k[i].h = h].ir] ELSE irs
                /\ CASE e.e = "run" -> Run(e.s, e.p, e.r.k, e.r.f = 1, e.eacces)
                     [] e.e = "ls" -> Looked(Set(e.h), e.unk)
                     [] e.e = "start" -> Start(e.s, e.w, e.sweep, e.files, e.max)
                     [] e.e = "flush" -> Flush(e.s)
                     [] e.e = "reinit" -> Reinit(e.s)
                     [] e.e \in {"stop", "kill"} -> Stop(e.s)
                     [] e.e = "died" -> Crash(e.s)
                     [] e.e = "damage" -> Damage(e.h, e.k)
                     [] OTHER -> UNCHANGED cvars
                /\ IF Check(e) THEN TRUE ELSE Reject(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = 0
=============================================================================
