------------------------------ MODULE Freeze ------------------------------
(* Frozen functions.  A session of the library is idle, recording, or       *)
(* recording but paused.  A recording stands for the function that was      *)
(* executed while it was made: replaying it applies that function to other  *)
(* inputs.  The function is a program of Prog followed by horizontal        *)
(* operations on its final slots.                                           *)
EXTENDS Prog

VARIABLES mode, have   \* "idle" | "rec" | "paused";  is there a recording?

\* ------------------------------------------------------------- transitions
FreezeInit == mode = "idle" /\ have = FALSE
Start  == mode = "idle" /\ mode' = "rec" /\ UNCHANGED have
Pause(r)  == mode # "idle" /\ r = B(mode = "paused") /\ mode' = "paused" /\ UNCHANGED have
Resume(r) == mode # "idle" /\ r = B(mode = "paused") /\ mode' = "rec" /\ UNCHANGED have
Stop   == mode = "rec" /\ mode' = "idle" /\ have' = TRUE
Abort  == mode' = "idle" /\ UNCHANGED have
Dry(r) == mode = "idle" /\ have /\ r \in {0, 1} /\ UNCHANGED <<mode, have>>
Replay == mode = "idle" /\ have /\ UNCHANGED <<mode, have>>
Flush  == mode = "idle" /\ UNCHANGED <<mode, have>>
\* The flag FreezingScope reflects the mode
Scope == mode = "rec"

\* --------------------------------------------------- horizontal operations
Ceil(a, b) == (a + b - 1) \div b
Col(R, k) == [i \in DOMAIN R.s |-> R.s[i][k + 1]]
RECURSIVE RedFrom(_, _, _, _)
RedFrom(op, v, i, j) == IF i = j THEN v[i] ELSE Reduce2(op, v[i], RedFrom(op, v, i + 1, j))
RECURSIVE Sum(_, _, _)
Sum(v, i, j) == IF i > j THEN 0 ELSE v[i] + Sum(v, i + 1, j)
BlockOf(i, bs) == (i - 1) \div bs
First(b, bs) == b * bs + 1
Last(b, bs, n) == Min2((b + 1) * bs, n)
Prefix(v, bs, ex, rev) ==
  [i \in DOMAIN v |-> LET b == BlockOf(i, bs) f == First(b, bs) t == Last(b, bs, Len(v))
                      IN IF rev = 0 THEN Sum(v, f, i - ex) ELSE Sum(v, i + ex, t)]
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE Min2(a[k], 100) * Min2(b[k], 100) + Dot(a, b, k - 1)
RECURSIVE ScatterSum(_, _, _, _)
ScatterSum(t, v, ix, k) == IF k > Len(v) THEN t ELSE ScatterSum([t EXCEPT ![ix[k] + 1] = @ + Min2(v[k], 15)], v, ix, k + 1)

HzOf(P, R, h) ==
  LET v == TLCEval(Col(R, h.a)) n == P.n w == TLCEval(Col(R, h.b)) IN
  CASE h.k = "red"  -> <<RedFrom(h.op, v, 1, n)>>
    [] h.k = "bred" -> TLCEval([b \in 1..Ceil(n, h.bs) |-> RedFrom(h.op, v, First(b - 1, h.bs), Last(b - 1, h.bs, n))])
    [] h.k = "pre"  -> TLCEval(Prefix(v, h.bs, h.ex, h.rev))
    [] h.k = "dot"  -> <<Dot(v, w, n)>>
    [] h.k = "any"  -> <<B(\E i \in 1..n : v[i] # 0)>>
    [] h.k = "all"  -> <<B(\A i \in 1..n : v[i] # 0)>>
    [] h.k = "ow"   -> <<n>>
    [] h.k = "gs"   -> TLCEval([i \in 1..n |-> v[(w[i] % n) + 1]])
    [] h.k = "ss"   -> ScatterSum([i \in 1..n |-> 0], v, [i \in 1..n |-> w[i] % n], 1)
    [] h.k = "bc"   -> LET r == Min2(RedFrom(h.op, v, 1, n), 1000) IN TLCEval([i \in 1..n |-> v[i] + r])
    [] h.k = "comp" -> LET S == SelectSeq([i \in 1..n |-> i], LAMBDA i : v[i] # 0) IN TLCEval([i \in 1..Len(S) |-> S[i] - 1])

SameArray(x, o) == x = o \/ (Len(o) = 1 /\ Len(x) > 0 /\ \A i \in DOMAIN x : x[i] = o[1])
=============================================================================
