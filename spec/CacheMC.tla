----------------------------- MODULE CacheMC --------------------------------
(* Design model of the protocol by which processes publish and load cache   *)
(* entries, at the granularity of file system operations, with crashes and  *)
(* errors at every step, external damage, and sweeps.  A loader trusts an    *)
(* entry only if its checksum matches.  The refinement target is Cache: an   *)
(* entry that nobody damaged is complete whenever it is visible (Atomic),    *)
(* and no process ever executes anything but a complete kernel (Safe).       *)
(* With Direct = TRUE, entries are written in place: Atomic fails.           *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Proc, Kern, Direct, MaxDamage, MaxCrash
VARIABLES pc, want, got, tmp, entry, damaged, mem, nd, nc
vars == <<pc, want, got, tmp, entry, damaged, mem, nd, nc>>
Init == /\ pc = [p \in Proc |-> "idle"] /\ want \in [Proc -> Kern] /\ got = [p \in Proc |-> "none"] /\ tmp = [p \in Proc |-> "none"]
        /\ entry = [k \in Kern |-> "none"] /\ damaged = {} /\ mem = [p \in Proc |-> {}] /\ nd = 0 /\ nc = 0
Go(p, a, b) == pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]
Begin(p) == \E k \in Kern : /\ Go(p, "idle", IF k \in mem[p] THEN "idle" ELSE "load") /\ want' = [want EXCEPT ![p] = k] /\ UNCHANGED <<got, tmp, entry, damaged, mem, nd, nc>>
Load(p) == /\ pc[p] = "load" /\ got' = [got EXCEPT ![p] = entry[want[p]]]
           /\ pc' = [pc EXCEPT ![p] = CASE entry[want[p]] = "none" -> "compile" [] entry[want[p]] = "full" -> "use" [] OTHER -> "reject"]
           /\ UNCHANGED <<want, tmp, entry, damaged, mem, nd, nc>>
LoadError(p) == Go(p, "load", "compile") /\ UNCHANGED <<want, got, tmp, entry, damaged, mem, nd, nc>>
RejectE(p) == /\ Go(p, "reject", "compile") /\ entry' = [entry EXCEPT ![want[p]] = "none"] /\ damaged' = damaged \ {want[p]} /\ UNCHANGED <<want, got, tmp, mem, nd, nc>>
Compile(p) == Go(p, "compile", "open") /\ got' = [got EXCEPT ![p] = "full"] /\ UNCHANGED <<want, tmp, entry, damaged, mem, nd, nc>>
Write(p) == \/ /\ Go(p, "open", "write") /\ UNCHANGED <<want, got, damaged, mem, nd, nc>>
               /\ IF Direct THEN entry' = [entry EXCEPT ![want[p]] = "part"] /\ UNCHANGED tmp ELSE tmp' = [tmp EXCEPT ![p] = "part"] /\ UNCHANGED entry
            \/ /\ Go(p, "write", "link") /\ UNCHANGED <<want, got, damaged, mem, nd, nc>>
               /\ IF Direct THEN entry' = [entry EXCEPT ![want[p]] = "full"] /\ UNCHANGED tmp ELSE tmp' = [tmp EXCEPT ![p] = "full"] /\ UNCHANGED entry
WriteError(p) == /\ pc[p] \in {"open", "write", "link"} /\ pc' = [pc EXCEPT ![p] = IF pc[p] = "open" THEN "use" ELSE "rm"] /\ UNCHANGED <<want, got, tmp, entry, damaged, mem, nd, nc>>
Link(p) == /\ Go(p, "link", "rm") /\ entry' = IF ~Direct /\ entry[want[p]] = "none" THEN [entry EXCEPT ![want[p]] = tmp[p]] ELSE entry
           /\ UNCHANGED <<want, got, tmp, damaged, mem, nd, nc>>
Rm(p) == Go(p, "rm", "use") /\ tmp' = [tmp EXCEPT ![p] = "none"] /\ UNCHANGED <<want, got, entry, damaged, mem, nd, nc>>
Use(p) == Go(p, "use", "idle") /\ mem' = [mem EXCEPT ![p] = @ \cup {want[p]}] /\ UNCHANGED <<want, got, tmp, entry, damaged, nd, nc>>
Crash(p) == /\ pc[p] # "idle" /\ nc < MaxCrash /\ nc' = nc + 1 /\ pc' = [pc EXCEPT ![p] = "idle"] /\ mem' = [mem EXCEPT ![p] = {}] /\ got' = [got EXCEPT ![p] = "none"] /\ UNCHANGED <<want, tmp, entry, damaged, nd>>
Flush(p) == pc[p] = "idle" /\ mem[p] # {} /\ mem' = [mem EXCEPT ![p] = {}] /\ UNCHANGED <<pc, want, got, tmp, entry, damaged, nd, nc>>
Damage(k) == entry[k] # "none" /\ nd < MaxDamage /\ nd' = nd + 1 /\ entry' = [entry EXCEPT ![k] = "junk"] /\ damaged' = damaged \cup {k} /\ UNCHANGED <<pc, want, got, tmp, mem, nc>>
Evict(k) == entry[k] # "none" /\ entry' = [entry EXCEPT ![k] = "none"] /\ damaged' = damaged \ {k} /\ UNCHANGED <<pc, want, got, tmp, mem, nd, nc>>
Next == \/ \E p \in Proc : Begin(p) \/ Load(p) \/ LoadError(p) \/ RejectE(p) \/ Compile(p) \/ Write(p) \/ WriteError(p) \/ Link(p) \/ Rm(p) \/ Use(p) \/ Crash(p) \/ Flush(p)
        \/ \E k \in Kern : Damage(k) \/ Evict(k)
Spec == Init /\ [][Next]_vars
Safe == \A p \in Proc : pc[p] = "use" => got[p] = "full"
Atomic == \A k \in Kern \ damaged : entry[k] \in {"none", "full"}
Fair == Spec /\ \A p \in Proc : WF_vars(Load(p) \/ RejectE(p) \/ Compile(p) \/ Write(p) \/ Link(p) \/ Rm(p) \/ Use(p))
=============================================================================
