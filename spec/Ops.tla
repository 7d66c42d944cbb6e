--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* Meaning of the elementary operations of Dr.Jit (jit_var_add() etc.) on  *)
(* scalars.  OpOK(op, t, rt, a, r, m, fm, h) says whether r is an         *)
(* admissible result of `op` on the operands a (of type t) when it was      *)
(* obtained in "style" m (which operands were literals) and with FastMath  *)
(* enabled or not.                                                         *)
(***************************************************************************)
EXTENDS IEEE

IsFloatT(t) == t \in {"f16", "f32", "f64"}
IsSignedT(t) == t \in {"i8", "i16", "i32", "i64"}
IsUnsignedT(t) == t \in {"u8", "u16", "u32", "u64"}
IsIntT(t) == IsSignedT(t) \/ IsUnsignedT(t)
NBytes(t) == CASE t \in {"b1", "i8", "u8"} -> 1 [] t \in {"i16", "u16", "f16"} -> 2
               [] t \in {"i32", "u32", "f32"} -> 4 [] t \in {"i64", "u64", "f64"} -> 8
B(x) == IF x THEN <<1>> ELSE <<0>>
True(a) == a # <<0>>

IntCmp(t, a, b) == IF IsSignedT(t) THEN CmpS(a, b) ELSE CmpU(a, b)
AbsW(a) == IF MsbSet(a) THEN NegW(a) ELSE a
IntMin(n) == [Zero(n) EXCEPT ![n] = 128]

\* Integer division truncates towards zero and INT_MIN / -1 wraps around.  A
\* division by zero must not trap, but its result is unspecified.  q is the
\* magnitude of the quotient: |a| = q |b| + rem with 0 <= rem < |b|.
Mag(t, a) == IF IsSignedT(t) THEN AbsW(a) ELSE a
Rem(a, b, q) == SubN(a, NatMul(q, b), Len(a))                     \* if q * b <= a
IsQuot(a, b, q) == CmpU(NatMul(q, b), a) <= 0 /\ CmpU(Rem(a, b, q), b) < 0
DivIntOK(t, a, b, r) ==
  IsZero(b) \/ LET neg == IsSignedT(t) /\ MsbSet(a) # MsbSet(b)
               IN IsQuot(Mag(t, a), Mag(t, b), IF neg THEN NegW(r) ELSE r)
ModIntOK(t, a, b, r, q) ==
  IsZero(b) \/ (/\ IsQuot(Mag(t, a), Mag(t, b), q)
                /\ LET m == Rem(Mag(t, a), Mag(t, b), q)
                   IN r = IF IsSignedT(t) /\ MsbSet(a) THEN NegW(m) ELSE m)
Wide(t, a) == IF IsSignedT(t) THEN SExt(a, 2 * Len(a)) ELSE Fit(a, 2 * Len(a))
MulWideW(t, a, b) == MulN(Wide(t, a), Wide(t, b), 2 * Len(a))
MulHiW(t, a, b) == SubSeq(MulWideW(t, a, b), Len(a) + 1, 2 * Len(a))

IntOp(op, t, a) ==
  LET n == Len(a[1])
      x == a[1]
      y == IF Len(a) > 1 THEN a[2] ELSE <<>>
      z == IF Len(a) > 2 THEN a[3] ELSE <<>>
  IN CASE op = "neg" -> NegW(x)
       [] op = "not" -> Inv(x)
       [] op = "abs" -> IF IsSignedT(t) THEN AbsW(x) ELSE x
       [] op = "popc" -> FromInt(PopCount(x), n)
       [] op = "clz" -> FromInt(Clz(x), n)
       [] op = "ctz" -> FromInt(Ctz(x), n)
       [] op = "brev" -> Brev(x)
       [] op = "add" -> AddN(x, y, n)
       [] op = "sub" -> SubN(x, y, n)
       [] op = "mul" -> MulN(x, y, n)
       [] op = "fma" -> AddN(MulN(x, y, n), z, n)
       [] op = "mulhi" -> MulHiW(t, x, y)
       [] op = "mulwide" -> MulWideW(t, x, y)
       [] op \in {"min", "fmin"} -> IF IntCmp(t, x, y) < 0 THEN x ELSE y
       [] op \in {"max", "fmax"} -> IF IntCmp(t, x, y) > 0 THEN x ELSE y
       [] op = "copysign" -> IF MsbSet(y) THEN NegW(AbsW(x)) ELSE AbsW(x)
       [] op = "eq" -> B(x = y)
       [] op = "neq" -> B(x # y)
       [] op = "lt" -> B(IntCmp(t, x, y) < 0)
       [] op = "le" -> B(IntCmp(t, x, y) <= 0)
       [] op = "gt" -> B(IntCmp(t, x, y) > 0)
       [] op = "ge" -> B(IntCmp(t, x, y) >= 0)
       [] op = "and" -> AndW(x, y)
       [] op = "or" -> OrW(x, y)
       [] op = "xor" -> XorW(x, y)
       [] op = "shl" -> ShlW(x, ToInt(SubSeq(y, 1, 1)))
       [] op = "shr" -> IF IsSignedT(t) THEN ShrS(x, ToInt(SubSeq(y, 1, 1))) ELSE ShrU(x, ToInt(SubSeq(y, 1, 1)))
       [] op = "select" -> IF True(x) THEN y ELSE z
       [] op = "and_mask" -> IF True(y) THEN x ELSE Zero(n)

BoolOp(op, a) ==
  LET x == True(a[1])
      y == IF Len(a) > 1 THEN True(a[2]) ELSE FALSE
  IN CASE op = "not" -> B(~x)
       [] op = "and" -> B(x /\ y)
       [] op = "or" -> B(x \/ y)
       [] op \in {"xor", "neq"} -> B(x # y)
       [] op = "eq" -> B(x = y)
       [] op = "select" -> IF x THEN a[2] ELSE a[3]

SameUpToZeroSign(t, r, s) == r = s \/ (IsFZero(t, r) /\ IsFZero(t, s))

\* Deliberate deviations from IEEE-754 when an operand is a literal:
\*  - x + 0, x - 0, fma(x, y, 0) with a literal zero drop the addition, which
\*    is visible in the sign of a zero result,
\*  - x / c with a literal c (f32/f64) multiplies by the rounded reciprocal,
\*  - under FastMath, x * 0 with a literal zero is zero for every x, and so is
\*    x / inf with a literal infinity.
LitAt(m, i) == Len(m) >= i /\ (m[i] = "L")
FloatStrictOK(op, t, a, r) ==
  LET x == a[1]
      y == IF Len(a) > 1 THEN a[2] ELSE <<>>
      z == IF Len(a) > 2 THEN a[3] ELSE <<>>
  IN CASE op = "neg" -> IF IsNaN(t, x) THEN IsNaN(t, r) ELSE r = FNeg(x)
       [] op = "abs" -> IF IsNaN(t, x) THEN IsNaN(t, r) ELSE r = FAbs(x)
       [] op = "sqrt" -> SqrtOK(t, x, r)
       [] op = "rcp" -> DivOK(t, FOne(t), x, r)
       [] op \in {"floor", "ceil", "trunc", "round"} -> IntegralOK(t, op, x, r)
       [] op = "add" -> AddOK(t, x, y, r)
       [] op = "sub" -> IF IsNaN(t, y) THEN IsNaN(t, r) ELSE SubOK(t, x, y, r)
       [] op = "mul" -> MulOK(t, x, y, r)
       [] op = "div" -> DivOK(t, x, y, r)
       [] op = "fma" -> FmaOK(t, x, y, z, r)
       [] op = "min" -> MinMaxOK(t, x, y, r, TRUE, TRUE)
       [] op = "max" -> MinMaxOK(t, x, y, r, FALSE, TRUE)
       [] op = "fmin" -> MinMaxOK(t, x, y, r, TRUE, FALSE)
       [] op = "fmax" -> MinMaxOK(t, x, y, r, FALSE, FALSE)
       [] op = "copysign" -> IF IsNaN(t, x) THEN IsNaN(t, r) ELSE r = SetSign(x, FSign(y))
       [] op = "eq" -> r = B(~AnyNaN(t, x, y) /\ FCmp(t, x, y) = 0)
       [] op = "neq" -> r = B(AnyNaN(t, x, y) \/ FCmp(t, x, y) # 0)
       [] op = "lt" -> r = B(~AnyNaN(t, x, y) /\ FCmp(t, x, y) < 0)
       [] op = "le" -> r = B(~AnyNaN(t, x, y) /\ FCmp(t, x, y) <= 0)
       [] op = "gt" -> r = B(~AnyNaN(t, x, y) /\ FCmp(t, x, y) > 0)
       [] op = "ge" -> r = B(~AnyNaN(t, x, y) /\ FCmp(t, x, y) >= 0)
       [] op = "and" -> r = AndW(x, y)
       [] op = "or" -> r = OrW(x, y)
       [] op = "xor" -> r = XorW(x, y)
       [] op = "select" -> IF True(x) THEN r = y ELSE r = z
       [] op = "and_mask" -> r = (IF True(y) THEN x ELSE Zero(Len(x)))

\* Reciprocal candidates of a literal divisor
DivByLiteralOK(t, a, c, r) ==
  \* r = RNE(a * RNE(1/c)) without computing the reciprocal: it is within
  \* 1.5 ulp; stated as: r is between the correctly rounded results for the
  \* neighbouring rounding boundaries.  Special values follow MulOK.
  LET s == (FSign(a) + FSign(c)) % 2
  IN IF IsNaN(t, a) \/ IsNaN(t, c) THEN IsNaN(t, r)
     ELSE IF IsInf(t, c) THEN (IF IsInf(t, a) THEN IsNaN(t, r) ELSE r = FZero(t, s))
     ELSE IF IsFZero(t, c) THEN (IF IsFZero(t, a) THEN IsNaN(t, r) ELSE r = FInf(t, s))
     ELSE IF IsInf(t, a) THEN (r = FInf(t, s))
     ELSE IF IsFZero(t, a) THEN (r = FZero(t, s) \/ (IsNaN(t, r) /\ FExp(t, c) <= 1))
     ELSE \* nonzero finite operands
       \/ FExp(t, c) <= 2 \/ FExp(t, c) >= EMax(t) - 3      \* reciprocal over-/underflows
       \/ FExp(t, r) <= 1
       \/ /\ ~IsNaN(t, r) /\ FSign(r) = s
          /\ \/ DivOK(t, a, c, r)
             \/ IsInf(t, r)
             \/ LET va == Val(t, a)  vc == Val(t, c)  m == Mant(t, r)
                    hi == Dy(0, NatAdd(NatShl(m, 1), <<3>>), Expo(t, r) - 1)
                    lo == Dy(0, NatSub(NatShl(m, 1), <<3>>), Expo(t, r) - 1)
                IN CmpMag(va, DyMul(hi, vc)) <= 0 /\ CmpMag(va, DyMul(lo, vc)) >= 0

LitZero(t, a, m, i) == LitAt(m, i) /\ IsFZero(t, a[i])

FloatOK(op, t, a, r, m, fm) ==
  \/ FloatStrictOK(op, t, a, r)
  \/ /\ op \in {"add", "sub"} /\ (LitZero(t, a, m, 1) \/ LitZero(t, a, m, 2)) /\ IsFZero(t, r)
     /\ IsFZero(t, a[1]) /\ IsFZero(t, a[2])
  \/ /\ op = "fma" /\ (LitZero(t, a, m, 1) \/ LitZero(t, a, m, 2) \/ LitZero(t, a, m, 3))
     /\ IsFZero(t, r) /\ FmaOK(t, a[1], a[2], a[3], FNeg(r))
  \/ /\ op = "div" /\ t \in {"f32", "f64"} /\ m = <<"V", "L">>
     /\ DivByLiteralOK(t, a[1], a[2], r)
  \/ /\ fm /\ op = "div" /\ m = <<"V", "L">> /\ IsInf(t, a[2]) /\ IsFZero(t, r)
  \/ /\ fm /\ op = "mul" /\ ((LitZero(t, a, m, 1) /\ r \in {a[1], FNeg(a[1])}) \/ (LitZero(t, a, m, 2) /\ r \in {a[2], FNeg(a[2])}))
  \/ /\ fm /\ op = "fma" /\ (LitZero(t, a, m, 1) \/ LitZero(t, a, m, 2))
     /\ (SameUpToZeroSign(t, r, a[3]) \/ (IsNaN(t, a[3]) /\ IsNaN(t, r)) \/ (IsFZero(t, r) /\ IsFZero(t, a[3])))

CastOK(mode, t1, t2, a, r) ==
  IF t1 = t2 THEN r = a
  ELSE IF t2 = "b1" THEN r = B(IF IsFloatT(t1) THEN ~IsFZero(t1, a) ELSE ~IsZero(a))
  ELSE IF t1 = "b1" THEN r = (IF True(a) THEN (IF IsFloatT(t2) THEN FOne(t2) ELSE FromInt(1, NBytes(t2))) ELSE Zero(NBytes(t2)))
  ELSE IF IsIntT(t1) /\ IsIntT(t2) THEN r = (IF IsSignedT(t1) THEN SExt(a, NBytes(t2)) ELSE Fit(a, NBytes(t2)))
  ELSE IF IsIntT(t1) THEN FromDyOK(t2, DyInt(a, IsSignedT(t1)), r)
  ELSE IF IsIntT(t2) THEN r = IntegralWord(t1, mode, a, NBytes(t2))
  ELSE FConvOK(t1, t2, a, r)

OpOK(op, t, rt, a, r, m, fm, h) ==
  CASE op = "cast" -> CastOK("trunc", t, rt, a[1], r)
    [] op = "cast_floor" -> CastOK("floor", t, rt, a[1], r)
    [] op = "cast_ceil" -> CastOK("ceil", t, rt, a[1], r)
    [] op = "cast_trunc" -> CastOK("trunc", t, rt, a[1], r)
    [] op = "cast_round" -> CastOK("round", t, rt, a[1], r)
    [] op = "bitcast" -> r = a[1]
    [] OTHER -> IF IsFloatT(t) THEN FloatOK(op, t, a, r, m, fm)
                ELSE IF t = "b1" THEN r = BoolOp(op, a)
                ELSE IF op = "div" THEN DivIntOK(t, a[1], a[2], r)
                ELSE IF op = "mod" THEN ModIntOK(t, a[1], a[2], r, h)
                ELSE r = IntOp(op, t, a)
=============================================================================
