------------------------------ MODULE VarStore ------------------------------
(* The observable state of the tracing compiler: a set of handles, each of *)
(* which denotes an array.  The specification is *eager*: every action has *)
(* its effect at once and touches only the handles that it names.  The     *)
(* library may postpone, fuse, reorder, share memory and copy on write as  *)
(* it pleases, as long as nobody can tell the difference.                  *)
(*                                                                         *)
(* Elements are mathematical integers; drivers keep all values far from    *)
(* the representable bounds (wrap-around is the business of Ops.tla).      *)
(* UNK stands for an element whose value is left unspecified.              *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

VARIABLES H,     \* handle -> [t : type name, v : sequence of elements]
          MS     \* stack of masks (sequences of 0/1)
vars == <<H, MS>>

UNK == -2000000000

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
B2I(b) == IF b THEN 1 ELSE 0
CeilDiv(a, b) == (a + b - 1) \div b
\* quotient and remainder round towards zero
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
TMod(a, b) == a - b * TDiv(a, b)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE PopC(_)
PopC(n) == IF n = 0 THEN 0 ELSE (n % 2) + PopC(n \div 2)

\* ------------------------------------------------------------ elements
Un(op, x) ==
  IF x = UNK THEN UNK ELSE
  CASE op = "neg" -> -x
    [] op = "abs" -> Abs(x)
    [] op = "lnot" -> 1 - x
    [] op = "popc" -> PopC(x)
    [] op = "id" -> x
    [] op = "nz" -> B2I(x # 0)

Bin(op, x, y) ==
  CASE op = "and" /\ (x = 0 \/ y = 0) -> 0     \* a masked element is zero
    [] x = UNK \/ y = UNK -> UNK
    [] op = "add" -> x + y
    [] op = "sub" -> x - y
    [] op = "mul" -> x * y
    [] op = "div" -> TDiv(x, y)
    [] op = "mod" -> TMod(x, y)
    [] op = "min" -> Min2(x, y)
    [] op = "max" -> Max2(x, y)
    [] op = "eq"  -> B2I(x = y)
    [] op = "neq" -> B2I(x # y)
    [] op = "lt"  -> B2I(x < y)
    [] op = "le"  -> B2I(x <= y)
    [] op = "gt"  -> B2I(x > y)
    [] op = "ge"  -> B2I(x >= y)
    [] op = "and" -> x & y
    [] op = "or"  -> x | y
    [] op = "xor" -> x ^^ y
    [] op = "shl" -> x * Pow2(y)
    [] op = "shr" -> x \div Pow2(y)

Tri(op, x, y, z) ==
  CASE op = "select" -> IF x = UNK THEN (IF y = z THEN y ELSE UNK) ELSE IF x = 1 THEN y ELSE z
    [] op = "fma" -> IF x = UNK \/ y = UNK \/ z = UNK THEN UNK ELSE x * y + z

\* masking: value if the boolean is set, zero otherwise
Mask(x, m) == IF m = 0 THEN 0 ELSE IF m = UNK THEN UNK ELSE x

\* ------------------------------------------------------------ arrays
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
MaxLen(a, b) == Max2(Len(a), Len(b))
Map1(op, a) == [i \in 1..Len(a) |-> Un(op, a[i])]
Map2(op, a, b) == [i \in 1..MaxLen(a, b) |-> Bin(op, At(a, i), At(b, i))]
Map3(op, a, b, c) == [i \in 1..Max2(MaxLen(a, b), Len(c)) |-> Tri(op, At(a, i), At(b, i), At(c, i))]

Apply(op, a) == CASE Len(a) = 1 -> Map1(op, a[1])
                  [] Len(a) = 2 /\ op = "mask" -> [i \in 1..MaxLen(a[1], a[2]) |-> Mask(At(a[1], i), At(a[2], i))]
                  [] Len(a) = 2 /\ op # "mask" -> Map2(op, a[1], a[2])
                  [] Len(a) = 3 -> Map3(op, a[1], a[2], a[3])

\* The mask stack: the topmost mask applies to memory operations of n lanes
\* if its length is compatible.
StackMask(n) ==
  IF MS = <<>> THEN <<1>>
  ELSE LET m == MS[Len(MS)] IN IF n = 1 \/ Len(m) = 1 \/ Len(m) = n THEN m ELSE <<1>>

\* Element k of packet i lives at position i * n + k (n = 1: plain access).
\* An element that is disabled by the mask argument reads as zero; one that is
\* disabled by the mask stack is unspecified.
GatherV(src, idx, mask, n, k) ==
  LET w == MaxLen(idx, mask)
      sm == StackMask(w)
  IN [i \in 1..Max2(w, Len(sm)) |->
       IF At(mask, i) = 0 THEN 0
       ELSE IF At(sm, i) = 0 THEN UNK
       ELSE LET j == At(idx, i) * n + k IN IF Len(src) = 1 THEN src[1] ELSE src[j + 1]]

\* Sequential scatter of 'vals' (a sequence of n arrays)
RECURSIVE ScatterStep(_, _, _, _, _, _, _, _)
ScatterStep(t, vals, idx, mask, sm, op, i, w) ==
  IF i > w THEN t
  ELSE IF At(mask, i) = 0 \/ At(sm, i) = 0 THEN ScatterStep(t, vals, idx, mask, sm, op, i + 1, w)
  ELSE LET n == Len(vals)
           b == At(idx, i) * n
           t2 == [j \in 1..Len(t) |->
                    IF j > b /\ j <= b + n
                    THEN LET x == At(vals[j - b], i) IN IF op = "id" THEN x ELSE Bin(op, t[j], x)
                    ELSE t[j]]
       IN ScatterStep(t2, vals, idx, mask, sm, op, i + 1, w)

ScatterW(vals, idx, mask) ==
  LET RECURSIVE L(_)
      L(k) == IF k > Len(vals) THEN MaxLen(idx, mask) ELSE Max2(Len(vals[k]), L(k + 1))
  IN L(1)

ScatterV(t, vals, idx, mask, op) ==
  LET w == ScatterW(vals, idx, mask)
      sm == StackMask(w)
  IN ScatterStep(t, vals, idx, mask, sm, op, 1, Max2(w, Len(sm)))

\* Reductions over sequences; 'lo'/'hi' stand for the extrema of the type
RECURSIVE Fold(_, _, _, _)
Fold(op, s, i, acc) == IF i > Len(s) THEN acc ELSE Fold(op, s, i + 1, Bin(op, acc, s[i]))
FoldSeq(op, s) == Fold(op, s, 2, s[1])

BlockReduceV(op, s, bs) ==
  [b \in 1..CeilDiv(Len(s), bs) |-> FoldSeq(op, SubSeq(s, (b - 1) * bs + 1, Min2(Len(s), b * bs)))]

\* Prefix reductions; 'idn' is the identity element (UNK: do not check)
PrefixV(op, s, bs, excl, rev, idn) ==
  [i \in 1..Len(s) |->
    LET b == (i - 1) \div bs
        lo == b * bs + 1
        hi == Min2(Len(s), (b + 1) * bs)
        part == IF rev THEN SubSeq(s, IF excl THEN i + 1 ELSE i, hi)
                       ELSE SubSeq(s, lo, IF excl THEN i - 1 ELSE i)
    IN IF part = <<>> THEN idn ELSE FoldSeq(op, part)]

RECURSIVE SumProd(_, _, _)
SumProd(a, b, i) == IF i > MaxLen(a, b) THEN 0
                    ELSE LET x == At(a, i) y == At(b, i) IN x * y + SumProd(a, b, i + 1)

RECURSIVE NZ(_, _)
NZ(m, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i] = 1 THEN <<i - 1>> ELSE <<>>) \o NZ(m, i + 1)

\* 'r' sorts 'keys' stably inside blocks of size bs
IsStablePerm(r, keys, bs) ==
  /\ Len(r) = Len(keys)
  /\ \A b \in 0..(CeilDiv(Len(keys), bs) - 1) :
       LET lo == b * bs + 1
           hi == Min2(Len(keys), (b + 1) * bs)
       IN /\ {r[i] : i \in lo..hi} = (lo - 1)..(hi - 1)
          /\ \A i \in lo..(hi - 1) :
               \/ keys[r[i] + 1] < keys[r[i + 1] + 1]
               \/ keys[r[i] + 1] = keys[r[i + 1] + 1] /\ r[i] < r[i + 1]

\* Old values of an atomic increment: some sequential order explains them
IncOld(t, idx, mask, old) ==
  LET w == Len(old)
      act == {i \in 1..w : At(mask, i) = 1}
  IN \A p \in {At(idx, i) : i \in act} :
       LET L == {i \in act : At(idx, i) = p}
       IN {old[i] : i \in L} = (t[p + 1])..(t[p + 1] + Cardinality(L) - 1)

\* An observation agrees with the specification
SameV(x, r) == Len(x) = Len(r) /\ \A i \in 1..Len(x) : x[i] = UNK \/ x[i] = r[i]

\* ------------------------------------------------------------ actions
Val(h) == H[h].v
Vals(hs) == [i \in 1..Len(hs) |-> H[hs[i]].v]
Bind(o, t, v) == H' = [h \in DOMAIN H \cup {o} |-> IF h = o THEN [t |-> t, v |-> v] ELSE H[h]] /\ UNCHANGED MS
BindAll(os, t, vs) ==
  H' = [h \in DOMAIN H \cup {os[i] : i \in 1..Len(os)} |->
          IF \E i \in 1..Len(os) : os[i] = h THEN [t |-> t, v |-> vs[CHOOSE i \in 1..Len(os) : os[i] = h]] ELSE H[h]]
  /\ UNCHANGED MS

Init == H = <<>> /\ MS = <<>>

Literal(o, t, n, x) == Bind(o, t, [i \in 1..n |-> x])
Counter(o, n)       == Bind(o, "u32", [i \in 1..n |-> i - 1])
FromMemory(o, t, v) == Bind(o, t, v)
Dup(o, h)           == Bind(o, H[h].t, Val(h))
Free(h)             == H' = [g \in DOMAIN H \ {h} |-> H[g]] /\ UNCHANGED MS
Arith(o, op, t, a)  == Bind(o, t, Apply(op, Vals(a)))
Cast(o, h, t)       == Bind(o, t, [i \in 1..Len(Val(h)) |-> IF t = "b1" THEN Un("nz", Val(h)[i]) ELSE Val(h)[i]])
Gather(o, s, i, m)  == Bind(o, H[s].t, GatherV(Val(s), Val(i), Val(m), 1, 0))
GatherPacket(os, s, i, m) ==
  BindAll(os, H[s].t, [k \in 1..Len(os) |-> GatherV(Val(s), Val(i), Val(m), Len(os), k - 1)])
Scatter(h, vs, i, m, op) == Bind(h, H[h].t, ScatterV(Val(h), Vals(vs), Val(i), Val(m), op))
\* Atomic exchange and compare-and-swap with distinct indices
Exchange(h, o, v, i, m) ==
  H' = [g \in DOMAIN H \cup {o} |->
          CASE g = h -> [t |-> H[h].t, v |-> ScatterV(Val(h), <<Val(v)>>, Val(i), Val(m), "id")]
            [] g = o -> [t |-> H[h].t, v |-> LET w == ScatterW(<<Val(v)>>, Val(i), Val(m))
                                              IN [j \in 1..w |-> IF At(Val(m), j) = 1 THEN Val(h)[At(Val(i), j) + 1] ELSE UNK]]
            [] OTHER -> H[g]] /\ UNCHANGED MS
CompareSwap(h, oo, os, c, v, i, m) ==
  LET w == Max2(ScatterW(<<Val(v)>>, Val(i), Val(m)), Len(Val(c)))
      old(j) == Val(h)[At(Val(i), j) + 1]
      ok == [j \in 1..w |-> B2I(At(Val(m), j) = 1 /\ old(j) = At(Val(c), j))]
  IN H' = [g \in DOMAIN H \cup {oo, os} |->
          CASE g = h -> [t |-> H[h].t, v |-> ScatterV(Val(h), <<Val(v)>>, Val(i), ok, "id")]
            [] g = oo -> [t |-> H[h].t, v |-> [j \in 1..w |-> IF At(Val(m), j) = 1 THEN old(j) ELSE UNK]]
            [] g = os -> [t |-> "b1", v |-> [j \in 1..w |-> IF At(Val(m), j) = 1 THEN ok[j] ELSE UNK]]
            [] OTHER -> H[g]] /\ UNCHANGED MS
\* Atomic increment: 'r' are the observed old values
Increment(h, o, i, m, r) ==
  /\ H' = [g \in DOMAIN H \cup {o} |->
            CASE g = h -> [t |-> "u32", v |-> ScatterV(Val(h), <<<<1>>>>, Val(i), Val(m), "add")]
              [] g = o -> [t |-> "u32", v |-> [j \in 1..Len(r) |-> IF At(Val(m), j) = 1 THEN r[j] ELSE UNK]]
              [] OTHER -> H[g]] /\ UNCHANGED MS
Poke(h, i, x)       == Bind(h, H[h].t, [Val(h) EXCEPT ![i + 1] = x])
Resize(o, h, n)     == Bind(o, H[h].t, [i \in 1..n |-> At(Val(h), i)])
Shrink(o, h, n)     == Bind(o, H[h].t, SubSeq(Val(h), 1, n))
Reverse(o, h)       == Bind(o, H[h].t, [i \in 1..Len(Val(h)) |-> Val(h)[Len(Val(h)) + 1 - i]])
Tile(o, h, n)       == Bind(o, H[h].t, [i \in 1..(n * Len(Val(h))) |-> Val(h)[((i - 1) % Len(Val(h))) + 1]])
Repeat(o, h, n, mx) == LET w == n * Len(Val(h)) IN
                       Bind(o, H[h].t, [i \in 1..(IF mx > 0 THEN Min2(w, mx) ELSE w) |-> Val(h)[((i - 1) \div n) + 1]])
Reduce(o, h, op)    == Bind(o, H[h].t, <<FoldSeq(op, Val(h))>>)
BlockReduce(o, h, op, bs) == Bind(o, H[h].t, BlockReduceV(op, Val(h), bs))
Prefix(o, h, op, bs, ex, rev, idn) == Bind(o, H[h].t, PrefixV(op, Val(h), bs, ex, rev, idn))
Dot(o, a, b)        == Bind(o, H[a].t, <<SumProd(Val(a), Val(b), 1)>>)
Compress(o, h)      == Bind(o, "u32", NZ(Val(h), 1))
AnyV(h) == B2I(\E i \in 1..Len(Val(h)) : Val(h)[i] = 1)
AllV(h) == B2I(\A i \in 1..Len(Val(h)) : Val(h)[i] = 1)
PushMask(h)         == MS' = Append(MS, Val(h)) /\ UNCHANGED H
PopMask             == MS' = SubSeq(MS, 1, Len(MS) - 1) /\ UNCHANGED H
=============================================================================
