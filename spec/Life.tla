------------------------------- MODULE Life -------------------------------
(* The variable graph: ownership, lifetime, validity of requests, results.   *)
(*   tab : id -> [t: type, s: state, n: size, r: references, d: operands,    *)
(*                 h: contents of evaluated variables (0: not recorded)]       *)
(*   ext : id -> number of references owned by the user                      *)
(*   stk : mask stack;  hid : references held by pending packet scatters     *)
(*   cbs : tag -> variable with a callback                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tab, ext, stk, hid, cbs
lvars == <<tab, ext, stk, hid, cbs>>

Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s), MaxOf(Tail(s)))
Compat(s) == MaxOf(s) = 0 \/ \A k \in DOMAIN s : s[k] \in {1, MaxOf(s)}
Occ(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
TName == <<"bool", "???", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "ptr", "???", "f16", "f32", "f64">>
IsFloat(t) == t \in {"f16", "f32", "f64"}

Sz(i) == IF i = 0 THEN 0 ELSE tab[i].n
Ty(i) == IF i = 0 THEN "none" ELSE tab[i].t
Szs(a) == [k \in DOMAIN a |-> Sz(a[k])]

\* ------------------------------------------------------------------ ownership
\* Pending side effects are the untyped nodes.  They are owned by the queue, and the pointers that they write to
\* hold a different type of reference, which is visible as the state "dirty".
Pending(T) == {i \in DOMAIN T : T[i].t = "void"}
WritePtrs(T) == {p \in DOMAIN T : T[p].t = "ptr" /\ \E v \in Pending(T) : \E k \in DOMAIN T[v].d : T[v].d[k] = p}
Edges(T) == {<<j, k>> \in UNION {{<<j, k>> : k \in DOMAIN T[j].d} : j \in DOMAIN T} : TRUE}
\* All references of all variables are accounted for
Conserved(T, X, S, HB) ==
  LET wp == WritePtrs(T)
      E  == {e \in Edges(T) : e[1] \notin wp}
      W  == {e \in Edges(T) : e[1] \in wp}
      In == [i \in DOMAIN T |-> Cardinality({e \in E : T[e[1]].d[e[2]] = i})]
  IN /\ \A e \in Edges(T) : T[e[1]].d[e[2]] \in DOMAIN T                                   \* no dangling operand
     /\ \A i \in DOMAIN X : X[i] > 0 => i \in DOMAIN T                                      \* what the user holds exists
     /\ \A i \in DOMAIN T :
          LET known == Get(X, i) + In[i] + Occ(S, i) + (IF T[i].t = "void" THEN 1 ELSE 0)
          IN T[i].r >= known /\ T[i].r <= known + Get(HB, i)                                  \* no reference is lost or forgotten
     /\ \A i \in DOMAIN T : T[i].t # "void" => ((T[i].s = "D") <=> \E e \in W : T[e[1]].d[e[2]] = i)

\* ------------------------------------------------------------------ which requests are valid
\* "y": must succeed, "n": must be refused, "?": unspecified
B(x) == IF x THEN "y" ELSE "n"
CanReduce(op, t) == op = 0 \/ (op # 2 /\ ~(op \in {5, 6} /\ IsFloat(t)))
Valid(e) ==
  LET a == e.a  p == e.p IN
  CASE e.f \in {"bin", "cmp", "fma", "sel"} -> B(Compat(Szs(a)))
    [] e.f = "gather" -> IF a[2] = 0 THEN "y" ELSE B(a[1] # 0 /\ a[3] # 0 /\ Compat(<<Sz(a[2]), Sz(a[3])>>))
    [] e.f = "gpack"  -> IF a[2] = 0 THEN "y" ELSE B(a[1] # 0 /\ a[3] # 0 /\ Compat(<<Sz(a[2]), Sz(a[3])>>) /\ p[1] # 1 /\ (Sz(a[1]) = 1 \/ Sz(a[1]) % p[1] = 0))
    [] e.f = "scatter" -> IF a[2] = 0 /\ a[3] = 0 THEN "y"
                          ELSE LET ok == a[1] # 0 /\ Compat(<<Sz(a[2]), Sz(a[3]), Sz(a[4])>>) /\ Ty(a[1]) = Ty(a[2]) /\ CanReduce(p[1], Ty(a[1]))
                               \* (kinds of reductions cannot be mixed while the target is pending in the mode "expand")
                               IN IF ok /\ tab[a[1]].s = "D" THEN "?" ELSE B(ok)
    [] e.f = "spack"  -> LET ok == Compat(Szs(SubSeq(a, 2, Len(a)))) /\ (\A k \in 4..Len(a) : Ty(a[k]) = Ty(a[1])) /\ CanReduce(p[2], Ty(a[1])) /\ (Sz(a[1]) = 1 \/ Sz(a[1]) % p[1] = 0)
                               IN IF ok /\ tab[a[1]].s = "D" THEN "?" ELSE B(ok)
    [] e.f = "inc"    -> B(Compat(<<Sz(a[2]), Sz(a[3])>>) /\ Ty(a[1]) = "u32" /\ Ty(a[2]) = "u32")
    [] e.f = "exch"   -> B(Compat(<<Sz(a[2]), Sz(a[3]), Sz(a[4])>>) /\ Ty(a[1]) = Ty(a[2]))
    [] e.f = "cas"    -> B(Compat(<<Sz(a[2]), Sz(a[3]), Sz(a[4]), Sz(a[5])>>) /\ Ty(a[1]) = Ty(a[2]) /\ Ty(a[1]) = Ty(a[3]))
    [] e.f = "resize" -> B(Sz(a[1]) = p[1] \/ Sz(a[1]) = 1 \/ tab[a[1]].s = "L")
    [] e.f = "shrink" -> B(a[1] = 0 \/ p[1] <= Sz(a[1]))
    [] e.f = "read"   -> B(Sz(a[1]) = 1 \/ p[1] < Sz(a[1]))
    [] e.f = "write"  -> B(p[1] < Sz(a[1]))
    [] e.f \in {"any", "all", "anya", "alla", "compress"} -> B(a[1] = 0 \/ Ty(a[1]) = "bool")
    [] e.f = "reduce" -> IF p[1] \in {5, 6} THEN "n" ELSE IF a[1] = 0 THEN B(p[2] # 0) ELSE B(p[2] = 0 \/ TName[p[2]] = Ty(a[1]))
    [] e.f = "breduce" -> IF a[1] = 0 THEN "y" ELSE IF p[1] = 0 THEN "n" ELSE IF p[1] = 1 \/ tab[a[1]].s = "L" THEN "y" ELSE IF p[1] > Sz(a[1]) THEN "?" ELSE B(p[2] \in {-1, 0, 1})
    [] e.f = "dot"    -> B((a[1] = 0 /\ a[2] = 0) \/ (a[1] # 0 /\ a[2] # 0 /\ Ty(a[1]) = Ty(a[2]) /\ Compat(Szs(a))))
    [] e.f = "label"  -> B(p[1] = 1)
    [] e.f = "mpop"   -> B(stk # <<>>)
    [] e.f = "mapply" -> IF Ty(a[1]) # "bool" THEN "n" ELSE IF stk # <<>> THEN "?" ELSE B(Compat(<<Sz(a[1]), p[1]>>))
    [] e.f = "sym"    -> "n"
    [] OTHER -> "y"

\* ------------------------------------------------------------------ results of valid requests
NRes(e) == CASE e.f \in {"exch", "inc"} -> 2 [] e.f = "cas" -> 3 [] e.f = "gpack" -> e.p[1]
             [] e.f \in {"read", "any", "all", "sched", "evalv", "eval", "cb", "mpush", "mpop", "dec", "gone"} -> 0 [] OTHER -> 1
\* Operations on one lane may be widened by the mask stack
Wide(n) == {n} \cup (IF stk # <<>> THEN {Max2(n, tab[stk[Len(stk)]].n)} ELSE {})
Res(e, k, v) ==  \* v: the row of result number k
  LET a == e.a  p == e.p  m == MaxOf(Szs(a)) IN
  CASE e.f = "bin" -> v.t = Ty(a[1]) /\ v.n = m
    [] e.f = "cmp" -> v.t = "bool" /\ v.n = m
    [] e.f = "fma" -> v.t = Ty(a[1]) /\ v.n = m
    [] e.f = "sel" -> v.t = Ty(a[2]) /\ v.n = m
    [] e.f \in {"un", "copy", "copyo", "schedf", "data", "inc_ref", "write", "label"} -> v.t = Ty(a[1]) /\ v.n = Sz(a[1])
    [] e.f = "cast" -> v.t = TName[p[1]] /\ v.n = Sz(a[1])
    [] e.f \in {"gather", "gpack"} -> v.t = Ty(a[1]) /\ v.n \in Wide(Max2(Sz(a[2]), Sz(a[3])))
    [] e.f \in {"scatter", "spack"} -> v.t = Ty(a[1]) /\ v.n = Sz(a[1])
    [] e.f \in {"inc", "exch", "cas"} -> IF k = 2 THEN v.t = Ty(a[1]) /\ v.n = Sz(a[1])
                                          ELSE v.t = (IF k = 3 THEN "bool" ELSE Ty(a[1])) /\ v.n \in Wide(MaxOf(Szs(Tail(a))))
    [] e.f \in {"resize", "shrink"} -> v.t = Ty(a[1]) /\ v.n = p[1]
    [] e.f \in {"anya", "alla"} -> v.t = "bool" /\ v.n = 1
    [] e.f = "compress" -> v.t = "u32" /\ v.n <= Sz(a[1])
    [] e.f = "reduce" -> v.n = 1 /\ v.t = (IF a[1] = 0 THEN TName[p[2]] ELSE Ty(a[1]))
    [] e.f = "breduce" -> v.t = Ty(a[1]) /\ v.n = (Sz(a[1]) + p[1] - 1) \div p[1]
    [] e.f = "dot" -> v.t = Ty(a[1]) /\ v.n = 1
    [] e.f = "rep" -> v.t = Ty(a[1]) /\ v.n = p[1] * Sz(a[1])
    [] e.f = "counter" -> v.t = "u32" /\ v.n = p[1]
    [] e.f \in {"lit", "mem"} -> v.t = TName[p[2]] /\ v.n = p[1]
    [] e.f = "mpeek" -> TRUE
    [] e.f = "mapply" -> v.t = "bool"
    [] OTHER -> FALSE
\* Requests whose result is "nothing"
Nothing(e) ==
  CASE e.f \in {"bin", "cmp", "fma", "sel"} -> MaxOf(Szs(e.a)) = 0
    [] e.f \in {"gather", "gpack"} -> e.a[2] = 0
    [] e.f = "scatter" -> e.a[1] = 0
    [] e.f \in {"un", "copy", "copyo", "schedf", "data", "breduce", "rep", "cast", "dot"} -> e.a[1] = 0
    [] e.f = "shrink" -> e.a[1] = 0 \/ e.p[1] = 0
    [] e.f = "compress" -> IF e.a[1] = 0 THEN TRUE ELSE "?" = "?"
    [] e.f = "lit" -> e.p[1] = 0
    [] e.f = "mpeek" -> stk = <<>>
    [] OTHER -> FALSE
ResultsOk(e, T) ==
  /\ Len(e.r) = NRes(e)
  /\ (e.f \in {"sched", "schedf", "evalv"} => e.rv = (IF e.a[1] # 0 /\ tab[e.a[1]].s \in {"U", "D"} THEN 1 ELSE 0))
  /\ \A k \in DOMAIN e.r :
       IF e.r[k] = 0 THEN Nothing(e)
       ELSE /\ (e.f = "compress" \/ ~Nothing(e)) /\ e.r[k] \in DOMAIN T /\ Res(e, k, T[e.r[k]])
            /\ (e.f = "mpeek" => e.r[k] = stk[Len(stk)])
            /\ (e.f = "inc_ref" => e.r[k] = e.a[1])
            /\ (e.f = "copyo" => T[e.r[k]].s = "E")
            /\ (e.f \in {"copy", "copyo"} => e.r[k] \notin DOMAIN tab)
            /\ (e.f \in {"copy", "copyo"} /\ tab[e.a[1]].h # 0 /\ T[e.r[k]].h # 0 => T[e.r[k]].h = tab[e.a[1]].h)
            /\ (e.f \in {"data", "schedf"} => (e.f = "data" => T[e.r[k]].s = "E") /\ (tab[e.a[1]].s # "L" => e.r[k] = e.a[1]))

\* ------------------------------------------------------------------ transitions
NewTab(e) ==
  LET del == {e.del[k] : k \in DOMAIN e.del}
      idx == [i \in {e.add[k].i : k \in DOMAIN e.add} |-> CHOOSE k \in DOMAIN e.add : e.add[k].i = i]
  IN TLCEval([i \in (DOMAIN tab \ del) \cup DOMAIN idx |-> IF i \in DOMAIN idx THEN LET w == e.add[idx[i]] IN [t |-> w.t, s |-> w.s, n |-> w.n, r |-> w.r, d |-> w.d, h |-> w.h] ELSE tab[i]])
Add(f, i, k) == IF i = 0 THEN f ELSE [x \in DOMAIN f \cup {i} |-> Get(f, x) + (IF x = i THEN k ELSE 0)]
RECURSIVE AddAll(_, _, _)
AddAll(f, s, k) == IF s = <<>> THEN f ELSE AddAll(Add(f, Head(s), k), Tail(s), k)
NewExt(e) ==
  LET x == IF e.ok = 0 THEN ext
           ELSE IF e.f \in {"inc", "exch", "cas"} THEN Add(AddAll(ext, e.r, 1), e.a[1], -1)
           ELSE IF e.f = "dec" THEN Add(ext, e.a[1], -1)
           ELSE AddAll(ext, e.r, 1)
      y == AddAll(x, e.fd, -1)
  IN [i \in {j \in DOMAIN y : y[j] # 0} |-> y[i]]
NewStk(e) == IF e.ok = 0 THEN stk ELSE IF e.f = "mpush" THEN Append(stk, e.a[1]) ELSE IF e.f = "mpop" THEN SubSeq(stk, 1, Len(stk) - 1) ELSE stk
NewHid(e, T) == IF Pending(T) = {} THEN <<>> ELSE IF e.f = "spack" /\ e.ok = 1 THEN AddAll(hid, SubSeq(e.a, 4, Len(e.a)), 1) ELSE hid

\* The array itself and, for a view, the array that it belongs to if nothing else refers to that
RECURSIVE Sole(_)
Sole(i) == IF i \notin DOMAIN tab \/ tab[i].r # 1 THEN {} ELSE {i} \cup UNION {Sole(tab[i].d[k]) : k \in DOMAIN tab[i].d}
Below == UNION {UNION {Sole(tab[j].d[k]) : k \in DOMAIN tab[j].d} : j \in {q \in DOMAIN tab : tab[q].s = "D"}}   \* pending writes through a view
\* A refused request changes nothing: no variable is created, no content, type or size changes.
\* (The library may have evaluated what was pending before it noticed.)
Refused(e, T) ==
  /\ DOMAIN T \subseteq DOMAIN tab
  /\ \A i \in DOMAIN T : T[i].t = tab[i].t /\ T[i].n = tab[i].n /\ (T[i].s = tab[i].s \/ (tab[i].s \in {"U", "D"} /\ T[i].s = "E")) /\ (tab[i].s = "E" /\ i \notin Below => T[i].h = tab[i].h)
  /\ Pending(T) \in {Pending(tab), {}}
  /\ (Pending(tab) = {} /\ (\A i \in DOMAIN tab : tab[i].s # "U")) => T = tab
  /\ \A k \in DOMAIN e.va : k <= Len(e.vb) /\ (e.va[k] = e.vb[k] \/ (e.a[k] # 0 /\ tab[e.a[k]].s \in {"U", "D"}))
  /\ (e.f = "sym" => e.p[2] = e.p[3])
Writers == {"scatter", "spack", "inc", "exch", "cas", "write"}
\* An accepted request leaves the type and size of all variables alone, and evaluated variables stay evaluated
Kept(e, T) ==
  LET Blw == TLCEval(Below) IN
  \A i \in DOMAIN T \cap DOMAIN tab :
    /\ T[i].t = tab[i].t
    /\ (T[i].n = tab[i].n \/ (e.f = "resize" /\ e.a[1] = i /\ tab[i].r = 1 /\ tab[i].s \in {"L", "U"} /\ T[i].n = e.p[1]))
    /\ (tab[i].s \in {"E", "D"} => T[i].s \in {"E", "D"}) /\ (tab[i].s = "L" => T[i].s = "L")
    \* Only requests that write may modify an array in place, and only if nothing else refers to it
    /\ (tab[i].s = "E" /\ ~(e.f \in Writers /\ \E k \in DOMAIN e.r : i \in Sole(e.r[k])) /\ i \notin Blw => T[i].s = "E" /\ T[i].h = tab[i].h)
Evaluates(e) == e.f \notin {"lit", "mem", "counter", "dec", "inc_ref", "mpush", "mpop", "mpeek", "label", "cb", "sched", "schedf"}
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
\* Callbacks: once when the variable is freed; when it is part of an evaluation
Called(e, T, C) ==
  /\ \A k \in DOMAIN e.cb : e.cb[k][1] \in DOMAIN C
  /\ \A g \in DOMAIN C :
       LET i == C[g]  fr == Count(e.cb, <<g, 1>>)  ev == Count(e.cb, <<g, 0>>) IN
       /\ fr = (IF i \in DOMAIN T THEN 0 ELSE 1)
       /\ (ev > 0 => Evaluates(e) /\ i \in DOMAIN tab)   \* (an evaluated or literal variable that is used by a kernel counts, too)
       /\ (i \in DOMAIN T /\ i \in DOMAIN tab /\ tab[i].s = "U" /\ T[i].s = "E" => ev > 0)
       /\ \A k, m \in DOMAIN e.cb : e.cb[k] = <<g, 1>> /\ e.cb[m] = <<g, 0>> => m < k
\* Everything else in an evaluation: what was pending is done
Settled(e, T) == e.f \in {"eval", "gone"} => Pending(T) = {} /\ ~\E i \in DOMAIN T : T[i].s = "D"
Gone(e, T) == /\ (e.f = "gone" => T = <<>>)
              /\ (e.f = "gone" /\ e.mem >= 0 => e.mem = 0)
=============================================================================
