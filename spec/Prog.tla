------------------------------- MODULE Prog -------------------------------
(* Reference semantics of structured data-parallel programs: loops,         *)
(* conditionals, indirect function calls, gathers, scatter-reductions and   *)
(* local arrays.  Every lane (array element) executes the program           *)
(* sequentially and on its own; lanes meet only in the scatter-reductions,  *)
(* which are commutative.  This is what an implementation must preserve     *)
(* whether it traces control flow symbolically, evaluates it step by step,  *)
(* with whatever optimizations.                                             *)
(*                                                                          *)
(* A program P is a record                                                  *)
(*   n     number of lanes         s    initial slot values (1 or n each)   *)
(*   b     buffers                 bo   their reduction ("" = read only)    *)
(*   x     lengths of local arrays fn   functions      code  statements     *)
(* Environment of one lane: s (slots), x (arrays), w (pending reductions).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
B(p) == IF p THEN 1 ELSE 0
LIM == 1000
InSeq(q, v) == \E k \in DOMAIN q : q[k] = v

\* Operand: <<0, slot>> or <<1, constant>>
Opd(o, e) == IF o[1] = 0 THEN e.s[o[2] + 1] ELSE o[2]

Apply(op, a) ==
  CASE op = "add" -> Min2(a[1] + a[2], LIM)
    [] op = "mul" -> Min2(a[1] * a[2], LIM)
    [] op = "fma" -> Min2(a[1] * a[2] + a[3], LIM)
    [] op = "sub" -> Max2(a[1], a[2]) - Min2(a[1], a[2])
    [] op = "inc" -> a[1] + 1
    [] op = "min" -> Min2(a[1], a[2])
    [] op = "max" -> Max2(a[1], a[2])
    [] op = "mod" -> a[1] % a[2]
    [] op = "iand" -> a[1] & a[2]
    [] op = "and" -> a[1] * a[2]
    [] op = "or"  -> Max2(a[1], a[2])
    [] op = "xor" -> (a[1] + a[2]) % 2
    [] op = "lnot" -> 1 - a[1]
    [] op = "select" -> IF a[1] # 0 THEN a[2] ELSE a[3]
    [] op = "lt"  -> B(a[1] < a[2])
    [] op = "le"  -> B(a[1] <= a[2])
    [] op = "gt"  -> B(a[1] > a[2])
    [] op = "ge"  -> B(a[1] >= a[2])
    [] op = "eq"  -> B(a[1] = a[2])
    [] op = "neq" -> B(a[1] # a[2])
    [] op = "cast" -> a[1]
    [] op = "test" -> B(a[1] # 0)

\* Outer environment e whose slots o and arrays x come from f (as do all writes)
Adopt(e, f, o, x) ==
  [s |-> TLCEval([k \in 1..Len(e.s) |-> IF InSeq(o, k - 1) THEN f.s[k] ELSE e.s[k]]),
   x |-> IF x = <<>> THEN e.x ELSE TLCEval([k \in 1..Len(e.x) |-> IF InSeq(x, k - 1) THEN f.x[k] ELSE e.x[k]]),
   w |-> f.w]
\* Assign values vs to slots ds, in order
RECURSIVE AssignAll(_, _, _, _)
AssignAll(s, ds, vs, k) == IF k > Len(ds) THEN s ELSE AssignAll([s EXCEPT ![ds[k] + 1] = vs[k]], ds, vs, k + 1)

RECURSIVE Run(_, _, _), RunFrom(_, _, _, _), Step(_, _, _), Loop(_, _, _, _)

Run(P, code, e) == RunFrom(P, code, e, 1)
RunFrom(P, code, e, k) == IF k > Len(code) THEN e ELSE RunFrom(P, code, Step(P, code[k], e), k + 1)

\* One iteration sees the environment at loop entry, except for the loop state
Loop(P, st, e0, cur) ==
  LET e1 == Run(P, st.p, cur)
  IN IF Opd(st.c, e1) = 0 THEN [cur EXCEPT !.w = e1.w]
     ELSE Loop(P, st, e0, Adopt(e0, Run(P, st.b, e1), st.o, st.x))

Call(P, f, j, e, args) ==
  LET F == P.fn[f + 1] I == F.inst[j]
      env == [s |-> TLCEval([k \in 1..Len(args) |-> e.s[args[k] + 1]]) \o F.l, x |-> <<>>, w |-> e.w]
      r == Run(P, I.b, env)
  IN [v |-> TLCEval([k \in 1..Len(I.r) |-> Opd(I.r[k], r)]), w |-> r.w]

Step(P, st, e) ==
  CASE st.k = "op"  -> [e EXCEPT !.s[st.d + 1] = Apply(st.op, TLCEval([k \in 1..Len(st.a) |-> Opd(st.a[k], e)]))]
    [] st.k = "gat" -> LET bf == P.b[st.b + 1]
                       IN [e EXCEPT !.s[st.d + 1] = IF Opd(st.m, e) = 0 THEN 0 ELSE bf[(Opd(st.i, e) % Len(bf)) + 1]]
    [] st.k = "gpk" -> LET bf == P.b[st.b + 1] n == Len(st.d) j == (Opd(st.i, e) % (Len(bf) \div n)) * n
                       IN [e EXCEPT !.s = AssignAll(e.s, st.d, [k \in 1..n |-> IF Opd(st.m, e) = 0 THEN 0 ELSE bf[j + k]], 1)]
    [] st.k = "sca" -> IF Opd(st.m, e) = 0 THEN e
                       ELSE LET v == Min2(Opd(st.v, e), 15) j == (Opd(st.i, e) + e.s[1]) % Len(P.b[st.b + 1])
                            IN [e EXCEPT !.w = Append(@, <<st.b, j, v>>)]
    [] st.k = "get" -> LET j == Opd(st.i, e) % (Len(st.v) + 1)
                       IN [e EXCEPT !.s[st.d + 1] = IF j = 0 \/ Opd(st.m, e) = 0 THEN 0 ELSE Max2(st.v[j], 0)]
    [] st.k = "ard" -> LET a == e.x[st.x + 1] IN [e EXCEPT !.s[st.d + 1] = a[(Opd(st.i, e) % Len(a)) + 1]]
    [] st.k = "awr" -> LET a == e.x[st.x + 1] IN IF Opd(st.m, e) = 0 THEN e ELSE [e EXCEPT !.x[st.x + 1] = [a EXCEPT ![(Opd(st.i, e) % Len(a)) + 1] = Opd(st.v, e)]]
    [] st.k = "ain" -> LET a == e.x[st.x + 1] v == Opd(st.v, e) IN [e EXCEPT !.x[st.x + 1] = TLCEval([k \in 1..Len(a) |-> v])]
    [] st.k = "acp" -> [e EXCEPT !.x[st.x + 1] = e.x[st.y + 1]]
    [] st.k = "ai2" -> LET v == Opd(st.v, e) w == Opd(st.w, e) n == Len(e.x[st.x + 1])
                       IN [e EXCEPT !.x[st.x + 1] = TLCEval([k \in 1..n |-> v]), !.x[st.y + 1] = TLCEval([k \in 1..n |-> w])]
    [] st.k = "if"  -> Adopt(e, Run(P, IF Opd(st.c, e) # 0 THEN st.t ELSE st.f, e), st.o, st.x)
    [] st.k = "wh"  -> Loop(P, st, e, e)
    [] st.k = "call" -> LET j == Opd(st.self, e) % (P.fn[st.f + 1].k + 1)
                        IN IF j = 0 \/ Opd(st.m, e) = 0 THEN [e EXCEPT !.s = AssignAll(e.s, st.o, [k \in 1..Len(st.o) |-> 0], 1)]
                           ELSE LET r == Call(P, st.f, j, e, st.a) IN [e EXCEPT !.s = AssignAll(e.s, st.o, r.v, 1), !.w = r.w]

\* The final environment of one lane
Zeros(n) == [k \in 1..n |-> 0]
Entry(P, lane) == [s |-> TLCEval([k \in 1..Len(P.s) |-> IF Len(P.s[k]) = 1 THEN P.s[k][1] ELSE P.s[k][lane]]),
                   x |-> TLCEval([k \in 1..Len(P.x) |-> Zeros(P.x[k])]), w |-> <<>>]
Lane(P, lane) == Run(P, P.code, Entry(P, lane))

Reduce2(op, a, b) == CASE op = "add" -> a + b [] op = "min" -> Min2(a, b) [] op = "max" -> Max2(a, b)
RECURSIVE Fold(_, _, _, _)
Fold(bs, bo, w, k) == IF k > Len(w) THEN bs
                      ELSE Fold([bs EXCEPT ![w[k][1] + 1][w[k][2] + 1] = Reduce2(bo[w[k][1] + 1], @, w[k][3])], bo, w, k + 1)
RECURSIVE FoldAll(_, _, _, _)
FoldAll(bs, bo, es, k) == IF k > Len(es) THEN bs ELSE FoldAll(Fold(bs, bo, es[k].w, 1), bo, es, k + 1)

\* The complete result: final slots per lane, and final buffers
Result(P) == LET es == TLCEval([i \in 1..P.n |-> Lane(P, i)])
             IN [s |-> TLCEval([i \in 1..P.n |-> es[i].s]), b |-> FoldAll(P.b, P.bo, es, 1)]

\* An observed array of size 1 stands for any number of equal elements
SameSlots(P, R, obs) ==
  /\ Len(obs) = Len(P.s)
  /\ \A k \in 1..Len(obs) : \/ Len(obs[k]) = 1 /\ \A i \in 1..P.n : obs[k][1] = R.s[i][k]
                            \/ Len(obs[k]) = P.n /\ \A i \in 1..P.n : obs[k][i] = R.s[i][k]
Diff(P, R, obs) == {<<k - 1, i - 1, R.s[i][k], IF Len(obs[k]) = 1 THEN obs[k][1] ELSE obs[k][i]>> :
                    <<k, i>> \in {q \in (1..Len(obs)) \X (1..P.n) : Len(obs[q[1]]) >= q[2] /\ (IF Len(obs[q[1]]) = 1 THEN obs[q[1]][1] ELSE obs[q[1]][q[2]]) # R.s[q[2]][q[1]]}}
=============================================================================
