------------------------------ MODULE AllocMC ------------------------------
(* Design of the asynchronous allocator, explored exhaustively.  Memory is  *)
(* recycled while operations that refer to it are still queued.  All        *)
(* operations execute in one linear order; ordinary (device) memory may     *)
(* therefore be recycled at once, memory that the host writes without       *)
(* synchronizing (shared) only by the queue itself.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, MaxQ, DEFER   \* DEFER = FALSE: the flawed variant

VARIABLES st,    \* slot -> "os" | "cache" | "dev" | "shr" (live) | "parked" | "sched" (to be released by the queue)
          kind,  \* slot -> kind of the cached allocation
          fresh, \* shared allocations the host may write without synchronizing
          q      \* queue: [op |-> "use", s] or [op |-> "rel", S]
vars == <<st, kind, fresh, q>>
Init == st = [s \in Slots |-> "os"] /\ kind = [s \in Slots |-> "dev"] /\ fresh = {} /\ q = <<>>
Malloc(k) == \E s \in Slots :
   /\ \/ st[s] = "cache" /\ kind[s] = k
      \/ st[s] = "os" /\ ~\E c \in Slots : st[c] = "cache" /\ kind[c] = k
   /\ st' = [st EXCEPT ![s] = k] /\ kind' = [kind EXCEPT ![s] = k]
   /\ fresh' = (IF k = "shr" THEN fresh \cup {s} ELSE fresh \ {s}) /\ UNCHANGED q
Use(s) == st[s] \in {"dev", "shr"} /\ Len(q) < MaxQ /\ q' = Append(q, [op |-> "use", s |-> {s}]) /\ fresh' = fresh \ {s} /\ UNCHANGED <<st, kind>>
Free(s) == /\ st[s] \in {"dev", "shr"}
           /\ st' = [st EXCEPT ![s] = IF st[s] = "dev" \/ ~DEFER THEN "cache" ELSE "parked"]
           /\ fresh' = fresh \ {s} /\ UNCHANGED <<kind, q>>
Parked == {s \in Slots : st[s] = "parked"}
\* Parked memory remains parked until the queue reaches the release operation
Barrier == Parked # {} /\ Len(q) < MaxQ /\ q' = Append(q, [op |-> "rel", s |-> Parked])
           /\ st' = [s \in Slots |-> IF s \in Parked THEN "sched" ELSE st[s]] /\ UNCHANGED <<kind, fresh>>
Run == /\ q # <<>> /\ q' = Tail(q)
       /\ st' = (IF Head(q).op = "rel" THEN [s \in Slots |-> IF s \in Head(q).s THEN "cache" ELSE st[s]] ELSE st)
       /\ UNCHANGED <<kind, fresh>>
\* Flushing the cache waits for the queue, then returns the memory to the OS
Flush == /\ q = <<>> /\ Parked = {}
         /\ st' = [s \in Slots |-> IF st[s] = "cache" THEN "os" ELSE st[s]] /\ UNCHANGED <<kind, fresh, q>>
Next == \/ \E k \in {"dev", "shr"} : Malloc(k)
        \/ \E s \in Slots : Use(s) \/ Free(s)
        \/ Barrier \/ Run \/ Flush
Spec == Init /\ [][Next]_vars

Queued(s) == \E k \in 1..Len(q) : q[k].op = "use" /\ s \in q[k].s
\* The host may write to fresh shared memory
HostSafe == \A s \in fresh : ~Queued(s)
\* Queued operations never refer to memory of the operating system
NoDangling == \A s \in Slots : Queued(s) => st[s] # "os"
=============================================================================
