----------------------------- MODULE Threads --------------------------------
(* Threads that run programs and share variables.  Variables are values:    *)
(* a version that was published never changes, whichever thread computes    *)
(* with it or writes to its own copy, and in whatever order the threads     *)
(* are interleaved.  The program of a thread is not affected by the others. *)
EXTENDS Prog
VARIABLES val    \* published versions -> contents
ThInit == val = <<>>
Known(v) == v \in DOMAIN val
Pub(v, r) == ~Known(v) /\ val' = TLCEval([x \in DOMAIN val \cup {v} |-> IF x = v THEN r ELSE val[x]])
Use(v, m, a, r) == Known(v) /\ r = [k \in DOMAIN val[v] |-> m * val[v][k] + a]
Upd(v, p, c, r, o) == Known(v) /\ r = [val[v] EXCEPT ![p + 1] = c] /\ o = val[v]
Get(v, p, r) == Known(v) /\ r = val[v][p + 1]
Sum(v, r) == Known(v) /\ LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + val[v][k] IN r = S(Len(val[v]))
Ran(prog, res, v) == /\ SameSlots(prog, res, v.s) /\ v.b = res.b /\ v.i = prog.b
=============================================================================
