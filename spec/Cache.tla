------------------------------ MODULE Cache ---------------------------------
(* The kernel cache.  Sessions (processes) execute programs; each launches   *)
(* a sequence of kernels identified by a hash of their code.  A kernel comes *)
(* from the memory of the session, else from a valid file in the cache       *)
(* directory that all sessions share, else it is compiled and then published *)
(* there.  The state of that directory never affects results: damaged        *)
(* entries are detected and replaced, entries appear atomically (a crash or  *)
(* an I/O error at any point leaves either no entry or a valid one).  When a *)
(* session starts and the last sweep is old, the least recently used entries *)
(* are removed until the cache fits its budget.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ses,    \* session -> [mem: kernels in memory, st: statistics, ro: gave up writing]
          disk,   \* kernel -> "ok" | "bad" | "dir" (cannot be replaced) | "unk" (ok or bad)
          code,   \* kernel -> its code
          seqs,   \* <<program, vector width>> -> sequence of kernels
          pend,   \* what the next look at the directory may reveal
          leaks,  \* number of faults so far (each may leave a temporary file behind)
          anon    \* number of files that belong to kernels which no session has reported (it crashed)
cvars == <<ses, disk, code, seqs, pend, leaks, anon>>

None == [t |-> "none"]
CInit == ses = <<>> /\ disk = <<>> /\ code = <<>> /\ seqs = <<>> /\ pend = None /\ leaks = 0 /\ anon = 0
Restrict(f, S) == [x \in S |-> f[x]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Fresh(w) == [mem |-> {}, st |-> <<0, 0, 0>>, ro |-> FALSE, w |-> w]

(* One launch. a = [mem, disk, st, ok, loaded], "fault": an operation on the cache directory failed during this run *)
Launch(a, k, fault, ro) ==
  LET h == k.h d == IF h \in DOMAIN a.disk THEN a.disk[h] ELSE "no"
      miss == IF d = "dir" THEN a.disk ELSE Put(a.disk, h, IF fault \/ ro THEN IF d = "ok" THEN "ok" ELSE "unk" ELSE "ok")
  IN IF h \in a.mem THEN [a EXCEPT !.st[1] = @ + 1, !.ok = @ /\ k.hit = 1 /\ k.disk = 0]
     ELSE IF k.hit = 1 THEN [a EXCEPT !.mem = @ \cup {h}, !.st = <<@[1] + 1, @[2] + 1, @[3]>>, !.ok = @ /\ k.disk = 1 /\ (d \in {"ok", "unk"} \/ (d = "no" /\ anon > 0 /\ h \notin DOMAIN code)),
                                      !.disk = Put(@, h, "ok"), !.loaded = @ \cup {h}]
     ELSE [a EXCEPT !.mem = @ \cup {h}, !.st = <<@[1] + 1, @[2], @[3] + 1>>, !.ok = @ /\ k.disk = 0 /\ (d = "ok" => fault), !.disk = miss]
RECURSIVE Launches(_, _, _, _)
Launches(a, ks, fault, ro) == IF ks = <<>> THEN a ELSE Launches(Launch(a, Head(ks), fault, ro), Tail(ks), fault, ro)
Hashes(ks) == [i \in DOMAIN ks |-> ks[i].h]

Run(s, p, ks, fault, eacces) ==
  LET w == ses[s].w
      a == Launches([mem |-> ses[s].mem, disk |-> disk, st |-> ses[s].st, ok |-> TRUE, loaded |-> {}], ks, fault, ses[s].ro)
  IN /\ ses' = [ses EXCEPT ![s] = [mem |-> a.mem, st |-> a.st, ro |-> @.ro \/ (fault /\ eacces), w |-> w]]
     /\ disk' = a.disk
     /\ code' = [h \in DOMAIN code \cup {ks[i].h : i \in DOMAIN ks} |-> IF h \in DOMAIN code THEN code[h] ELSE (CHOOSE i \in DOMAIN ks : ks[i].h = h)]
     /\ seqs' = Put(seqs, <<p, w>>, Hashes(ks))
     /\ pend' = [t |-> (IF fault \/ ses[s].ro THEN "fault" ELSE "run"), ok |-> a.ok, loaded |-> a.loaded]
     /\ leaks' = leaks + (IF fault THEN 1 ELSE 0) /\ UNCHANGED anon
SameKernels(s, p, ks) == <<p, ses[s].w>> \in DOMAIN seqs => seqs[<<p, ses[s].w>>] = Hashes(ks)
Crash(s) == /\ ses' = Restrict(ses, DOMAIN ses \ {s}) /\ pend' = [t |-> "crash"] /\ leaks' = leaks + 1 /\ UNCHANGED <<disk, code, seqs, anon>>
Stop(s) == /\ ses' = Restrict(ses, DOMAIN ses \ {s}) /\ pend' = [t |-> "idle"] /\ UNCHANGED <<disk, code, seqs, leaks, anon>>
Flush(s) == ses' = [ses EXCEPT ![s].mem = {}] /\ pend' = [t |-> "idle"] /\ UNCHANGED <<disk, code, seqs, leaks, anon>>
Reinit(s) == ses' = [ses EXCEPT ![s] = Fresh(@.w)] /\ pend' = [t |-> "idle"] /\ UNCHANGED <<disk, code, seqs, leaks, anon>>
Damage(h, k) == /\ disk' = IF k = "remove" THEN Restrict(disk, DOMAIN disk \ {h}) ELSE Put(disk, h, IF k = "directory" THEN "dir" ELSE "bad")
                /\ pend' = [t |-> "idle"] /\ UNCHANGED <<ses, code, seqs, leaks, anon>>
Start(s, w, sweep, files, max) == /\ ses' = Put(ses, s, Fresh(w))
                                  /\ pend' = (IF sweep THEN [t |-> "sweep", files |-> files, max |-> max] ELSE [t |-> "idle"]) /\ UNCHANGED <<disk, code, seqs, leaks, anon>>

(* What a sweep may leave behind. files: <<kernel, size, age>> *)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + Sum(S \ {x})
Swept(files, max, left, exact) ==
  LET F == {files[i] : i \in DOMAIN files} gone == {f \in F : f[1] \notin left} kept == F \ gone
  IN /\ \A f \in gone, g \in kept : f[3] > g[3]                    \* least recently used first
     /\ exact => /\ Sum(F) <= max => gone = {}
                 /\ Sum(F) > max => /\ Sum(kept) <= max            \* fits the budget
                                    /\ \E f \in gone : (\A g \in gone : g[3] >= f[3]) /\ (Sum(kept) + f[2]) * 4 > max * 3   \* no more than needed

(* Looking at the directory. Returns the new belief about its contents. *)
Believe(listed) == [h \in listed |-> IF h \in DOMAIN disk THEN IF disk[h] = "bad" /\ pend.t \in {"fault", "crash"} THEN "unk" ELSE disk[h] ELSE "ok"]
Look(listed, tmp, unk, lost, old) ==
  LET D == DOMAIN disk sure == {h \in D : disk[h] \in {"ok", "dir"}} IN
  /\ lost = 0 /\ tmp <= leaks /\ (unk > 0 => leaks > 0)
  /\ CASE pend.t \in {"idle", "none"} -> listed = D
       [] pend.t = "run" -> pend.ok /\ listed = D /\ pend.loaded \cap old = {}
       [] pend.t = "fault" -> pend.ok /\ sure \subseteq listed /\ listed \subseteq D
       [] pend.t = "crash" -> sure \subseteq listed
       [] pend.t = "sweep" -> listed \subseteq D /\ {h \in D : disk[h] = "dir"} \subseteq listed /\ Swept(pend.files, pend.max, listed, unk = 0 /\ leaks = 0)
Looked(listed, unk) == anon' = unk /\ disk' = Believe(listed) /\ pend' = [t |-> "idle"] /\ UNCHANGED <<ses, code, seqs, leaks>>
=============================================================================
