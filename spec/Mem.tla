-------------------------------- MODULE Mem --------------------------------
(* The memory allocator and the execution queue.  Threads issue operations  *)
(* that execute asynchronously but in the order in which they were issued;  *)
(* the observable contents of memory are those of an immediate execution.   *)
(* The contents of a block are its first W bytes (-1: unspecified).         *)
(* A copy may be placed into memory of either backend (be = -1).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

W == 64
VARIABLES blk,    \* live blocks: id -> [be, n, own, hi, lo, v]
          freed,  \* ids of released blocks
          hf,     \* thread -> snapshots owed by its host functions, in order
          nhf,    \* thread -> number of host functions issued so far
          ev,     \* event -> [t, pos, tm]  (t = -1: not recorded)
          peak    \* backend -> largest total size of requested blocks since the statistics were cleared
mvars == <<blk, freed, hf, nhf, ev, peak>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Put(f, k, x) == (k :> x) @@ f
Del(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]
Win(n) == Min2(W, n)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x].n + SumOf(f, S \ {x})
Used(f, be) == SumOf(f, {x \in DOMAIN f : f[x].be = be})
Peak(f) == [be \in DOMAIN peak |-> Max2(peak[be], Used(f, be))]

MemInit == blk = <<>> /\ freed = {} /\ hf = <<>> /\ nhf = <<>> /\ ev = <<>> /\ peak = (0 :> 0) @@ (1 :> 0) @@ (2 :> 0) @@ (3 :> 0)

\* [lo, lo + n) ranges of two blocks (addresses are hi * 2^30 + lo)
Overlap(a, b) == LET d == b.hi - a.hi IN
  IF d \in {-1, 0, 1} THEN LET x == d * 1073741824 + (b.lo - a.lo) IN (x >= 0 /\ x < a.n) \/ (x < 0 /\ -x < b.n) ELSE FALSE
Disjoint(f, b) == \A x \in DOMAIN f : ~Overlap(f[x], b)

New(o, be, n, t, hi, lo) == [be |-> be, n |-> n, own |-> t, hi |-> hi, lo |-> lo, v |-> [i \in 1..Win(n) |-> -1]]
Malloc(o, b) == blk' = Put(blk, o, b) /\ peak' = Peak(blk') /\ UNCHANGED <<freed, hf, nhf, ev>>
FreeB(h) == blk' = Del(blk, h) /\ freed' = freed \cup {h} /\ UNCHANGED <<hf, nhf, ev, peak>>
Write(h, v) == blk' = [blk EXCEPT ![h].v = v] /\ UNCHANGED <<freed, hf, nhf, ev, peak>>

HostWrite(h, off, x) == Write(h, TLCEval([i \in DOMAIN blk[h].v |-> IF i > off /\ i <= off + Len(x) THEN x[i - off] ELSE blk[h].v[i]]))
Memset(h, off, n, is, x) == Write(h, TLCEval([i \in DOMAIN blk[h].v |-> IF i > off /\ i <= off + n * is THEN x[((i - 1 - off) % is) + 1] ELSE blk[h].v[i]]))
Memcpy(s, so, h, off, n) == Write(h, TLCEval([i \in DOMAIN blk[h].v |-> IF i > off /\ i <= off + n THEN blk[s].v[i - off + so] ELSE blk[h].v[i]]))
Kernel(s, h, n, c) == Write(h, TLCEval([i \in DOMAIN blk[h].v |-> IF i <= n THEN (IF blk[s].v[i] = -1 THEN -1 ELSE (blk[s].v[i] + c) % 256) ELSE blk[h].v[i]]))
Hit(a, i) == {k \in DOMAIN a : i > a[k].off /\ i <= a[k].off + a[k].z}
Aggregate(h, a) == Write(h, TLCEval([i \in DOMAIN blk[h].v |-> IF Hit(a, i) = {} THEN blk[h].v[i] ELSE
   LET e == a[CHOOSE k \in Hit(a, i) : TRUE] IN IF e.s = -1 THEN e.x[i - e.off] ELSE blk[e.s].v[i - e.off + e.so]]))
Migrate(h, o, be, mv, b) ==
  LET c == [b EXCEPT !.v = blk[h].v] f == IF mv THEN Del(blk, h) ELSE blk
  IN blk' = Put(f, o, c) /\ freed' = (IF mv THEN freed \cup {h} ELSE freed) /\ peak' = Peak(blk') /\ UNCHANGED <<hf, nhf, ev>>
Give(h, t) == blk' = [blk EXCEPT ![h].own = t] /\ UNCHANGED <<freed, hf, nhf, ev, peak>>

\* Host functions of a thread run in the order in which they were issued
Owed(t) == IF t \in DOMAIN hf THEN hf[t] ELSE <<>>
Issued(t) == IF t \in DOMAIN nhf THEN nhf[t] ELSE 0
Ran(t) == Issued(t) - Len(Owed(t))
Enqueue(t, h) == hf' = Put(hf, t, Append(Owed(t), blk[h].v)) /\ nhf' = Put(nhf, t, Issued(t) + 1) /\ UNCHANGED <<blk, freed, ev, peak>>
RunHost(t) == hf' = Put(hf, t, Tail(Owed(t))) /\ UNCHANGED <<blk, freed, nhf, ev, peak>>
Synced(t) == Owed(t) = <<>>

EvNew(e, tm) == ev' = Put(ev, e, [t |-> -1, pos |-> 0, tm |-> tm]) /\ UNCHANGED <<blk, freed, hf, nhf, peak>>
EvRec(e, t) == ev' = [ev EXCEPT ![e].t = t, ![e].pos = Issued(t)] /\ UNCHANGED <<blk, freed, hf, nhf, peak>>
EvDel(e) == ev' = Del(ev, e) /\ UNCHANGED <<blk, freed, hf, nhf, peak>>
EvDone(e) == ev[e].t = -1 \/ Ran(ev[e].t) >= ev[e].pos

WmClear == peak' = [be \in DOMAIN peak |-> Used(blk, be)] /\ UNCHANGED <<blk, freed, hf, nhf, ev>>
Same(v, o) == Len(v) = Len(o) /\ \A i \in DOMAIN v : v[i] = -1 \/ v[i] = o[i]
AllDisjoint == \A x, y \in DOMAIN blk : x = y \/ ~Overlap(blk[x], blk[y])
=============================================================================
