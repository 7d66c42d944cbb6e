-------------------------------- MODULE IEEE --------------------------------
(***************************************************************************)
(* IEEE-754 binary16/32/64 with round-to-nearest-even.  A result r of an   *)
(* operation with exact real value x is characterised by *comparing* x     *)
(* with the two rounding boundaries next to r, so that no operation ever   *)
(* has to be carried out inexactly in the specification.                   *)
(***************************************************************************)
EXTENDS Word

Prec(t)  == CASE t = "f16" -> 11 [] t = "f32" -> 24 [] t = "f64" -> 53
EBits(t) == CASE t = "f16" -> 5  [] t = "f32" -> 8  [] t = "f64" -> 11
FBytes(t) == CASE t = "f16" -> 2 [] t = "f32" -> 4 [] t = "f64" -> 8
Bias(t) == 2^(EBits(t) - 1) - 1
EMax(t) == 2^EBits(t) - 1                        \* biased exponent of Inf/NaN
EMin(t) == 1 - Bias(t) - (Prec(t) - 1)           \* exponent of the last bit of a denormal

FSign(a) == IF MsbSet(a) THEN 1 ELSE 0
FExp(t, a) == LET n == Len(a)
              IN CASE t = "f16" -> (a[2] % 128) \div 4
                   [] t = "f32" -> (a[4] % 128) * 2 + (a[3] \div 128)
                   [] t = "f64" -> (a[8] % 128) * 16 + (a[7] \div 16)
FFrac(t, a) == CASE t = "f16" -> <<a[1], a[2] % 4>>
                 [] t = "f32" -> <<a[1], a[2], a[3] % 128>>
                 [] t = "f64" -> <<a[1], a[2], a[3], a[4], a[5], a[6], a[7] % 16>>
HiddenBit(t) == CASE t = "f16" -> 4 [] t = "f32" -> 128 [] t = "f64" -> 16
IsNaN(t, a) == FExp(t, a) = EMax(t) /\ ~IsZero(FFrac(t, a))
IsInf(t, a) == FExp(t, a) = EMax(t) /\ IsZero(FFrac(t, a))
IsFZero(t, a) == FExp(t, a) = 0 /\ IsZero(FFrac(t, a))
IsFinite(t, a) == FExp(t, a) # EMax(t)

FAbs(a) == [a EXCEPT ![Len(a)] = @ % 128]
FNeg(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
SetSign(a, s) == [a EXCEPT ![Len(a)] = (@ % 128) + 128 * s]

FInf(t, s) == CASE t = "f16" -> <<0, 124 + 128 * s>>
                [] t = "f32" -> <<0, 0, 128, 127 + 128 * s>>
                [] t = "f64" -> <<0, 0, 0, 0, 0, 0, 240, 127 + 128 * s>>
FZero(t, s) == [Zero(FBytes(t)) EXCEPT ![FBytes(t)] = 128 * s]
FOne(t) == CASE t = "f16" -> <<0, 60>> [] t = "f32" -> <<0, 0, 128, 63>>
             [] t = "f64" -> <<0, 0, 0, 0, 0, 0, 240, 63>>

------------------------------------------------------------------------------
(* Dyadic rationals (-1)^s * m * 2^e, m a natural number *)

Dy(s, m, e) == [s |-> s, m |-> m, e |-> e]
Mant(t, a) == LET f == FFrac(t, a) IN IF FExp(t, a) = 0 THEN f ELSE [f EXCEPT ![Len(f)] = @ + HiddenBit(t)]
Expo(t, a) == IF FExp(t, a) = 0 THEN EMin(t) ELSE EMin(t) + FExp(t, a) - 1
Val(t, a) == Dy(FSign(a), Mant(t, a), Expo(t, a))        \* a finite
DyInt(a, signed) == IF signed /\ MsbSet(a) THEN Dy(1, NegW(a), 0) ELSE Dy(0, a, 0)

DyNeg(x) == [x EXCEPT !.s = 1 - @]
DyAbs(x) == [x EXCEPT !.s = 0]
DySgn(x) == IF IsZero(x.m) THEN 0 ELSE IF x.s = 1 THEN -1 ELSE 1

\* Compare absolute values
CmpMag(x, y) ==
  IF IsZero(x.m) THEN (IF IsZero(y.m) THEN 0 ELSE -1)
  ELSE IF IsZero(y.m) THEN 1
  ELSE LET lx == BLen(x.m) + x.e  ly == BLen(y.m) + y.e
       IN IF lx < ly THEN -1 ELSE IF lx > ly THEN 1
          ELSE IF x.e >= y.e THEN CmpU(NatShl(x.m, x.e - y.e), y.m)
               ELSE CmpU(x.m, NatShl(y.m, y.e - x.e))
DyCmp(x, y) ==
  IF DySgn(x) < DySgn(y) THEN -1 ELSE IF DySgn(x) > DySgn(y) THEN 1
  ELSE IF DySgn(x) = 1 THEN CmpMag(x, y) ELSE IF DySgn(x) = -1 THEN CmpMag(y, x) ELSE 0

DyMul(x, y) == Dy((x.s + y.s) % 2, NatMul(x.m, y.m), x.e + y.e)
DyAdd(x, y) ==
  IF IsZero(x.m) THEN y ELSE IF IsZero(y.m) THEN x
  ELSE LET e == Min2(x.e, y.e)
           mx == NatShl(x.m, x.e - e)  my == NatShl(y.m, y.e - e)
       IN IF x.s = y.s THEN Dy(x.s, NatAdd(mx, my), e)
          ELSE IF CmpU(mx, my) >= 0 THEN Dy(x.s, NatSub(mx, my), e) ELSE Dy(y.s, NatSub(my, mx), e)

------------------------------------------------------------------------------
(* Rounding.  Boundaries of the interval of magnitudes that round to r     *)

PowerOfTwoMant(t, a) == IsZero(FFrac(t, a)) /\ FExp(t, a) > 1
Upper(t, r) == LET m == Mant(t, r) IN Dy(0, NatAdd(NatShl(m, 1), <<1>>), Expo(t, r) - 1)
Lower(t, r) == LET m == Mant(t, r)
               IN IF PowerOfTwoMant(t, r)
                  THEN Dy(0, NatSub(NatShl(m, 2), <<1>>), Expo(t, r) - 2)
                  ELSE Dy(0, NatSub(NatShl(m, 1), <<1>>), Expo(t, r) - 1)
MaxFinite(t) == CASE t = "f16" -> <<255, 123>> [] t = "f32" -> <<255, 255, 127, 127>>
                  [] t = "f64" -> <<255, 255, 255, 255, 255, 255, 239, 127>>
OddMant(t, r) == r[1] % 2 = 1

\* Is r the correctly rounded magnitude of |x|, where Cmp(y) = sign(|x| - y) ?
RNEMag(t, r, Cmp(_)) ==
  IF IsNaN(t, r) THEN FALSE
  ELSE IF IsInf(t, r) THEN Cmp(Upper(t, MaxFinite(t))) >= 0
  ELSE /\ LET c == Cmp(Upper(t, r)) IN c < 0 \/ (c = 0 /\ ~OddMant(t, r))
       /\ IsFZero(t, r) \/ LET c == Cmp(Lower(t, r)) IN c > 0 \/ (c = 0 /\ ~OddMant(t, r))

\* r = RNE(x) for a nonzero dyadic x (sign included)
IsRound(t, r, x) ==
  /\ FSign(r) = x.s
  /\ LET Cmp(y) == CmpMag(x, y) IN RNEMag(t, r, Cmp)

------------------------------------------------------------------------------
(* Operations: "r is an admissible result of op(a, b, ..)".  NaN payloads  *)
(* and NaN signs are unspecified.                                          *)

AddOK(t, a, b, r) ==
  IF IsNaN(t, a) \/ IsNaN(t, b) THEN IsNaN(t, r)
  ELSE IF IsInf(t, a) /\ IsInf(t, b) THEN (IF FSign(a) = FSign(b) THEN r = a ELSE IsNaN(t, r))
  ELSE IF IsInf(t, a) THEN r = a
  ELSE IF IsInf(t, b) THEN r = b
  ELSE LET x == DyAdd(Val(t, a), Val(t, b))
       IN IF IsZero(x.m)
          THEN r = FZero(t, IF FSign(a) = 1 /\ FSign(b) = 1 THEN 1 ELSE 0)
          ELSE IsRound(t, r, x)
SubOK(t, a, b, r) == AddOK(t, a, FNeg(b), r) 

MulOK(t, a, b, r) ==
  LET s == (FSign(a) + FSign(b)) % 2
  IN IF IsNaN(t, a) \/ IsNaN(t, b) THEN IsNaN(t, r)
     ELSE IF IsInf(t, a) \/ IsInf(t, b)
          THEN IF IsFZero(t, a) \/ IsFZero(t, b) THEN IsNaN(t, r) ELSE r = FInf(t, s)
     ELSE IF IsFZero(t, a) \/ IsFZero(t, b) THEN r = FZero(t, s)
     ELSE IsRound(t, r, DyMul(Val(t, a), Val(t, b)))

DivOK(t, a, b, r) ==
  LET s == (FSign(a) + FSign(b)) % 2
  IN IF IsNaN(t, a) \/ IsNaN(t, b) THEN IsNaN(t, r)
     ELSE IF IsInf(t, a) THEN (IF IsInf(t, b) THEN IsNaN(t, r) ELSE r = FInf(t, s))
     ELSE IF IsInf(t, b) THEN r = FZero(t, s)
     ELSE IF IsFZero(t, b) THEN (IF IsFZero(t, a) THEN IsNaN(t, r) ELSE r = FInf(t, s))
     ELSE IF IsFZero(t, a) THEN r = FZero(t, s)
     ELSE /\ FSign(r) = s
          /\ LET va == Val(t, a)  vb == Val(t, b)
                 Cmp(y) == CmpMag(va, DyMul(y, vb))
             IN RNEMag(t, r, Cmp)

SqrtOK(t, a, r) ==
  IF IsNaN(t, a) THEN IsNaN(t, r)
  ELSE IF IsFZero(t, a) THEN r = a
  ELSE IF FSign(a) = 1 THEN IsNaN(t, r)
  ELSE IF IsInf(t, a) THEN r = a
  ELSE /\ FSign(r) = 0
       /\ LET va == Val(t, a)
              Cmp(y) == CmpMag(va, DyMul(y, y))
          IN RNEMag(t, r, Cmp)

\* Round the dyadic x to p significant bits (ties to even)
RoundBits(x, p) ==
  LET k == BLen(x.m) - p
  IN IF k <= 0 THEN x
     ELSE LET q == ShrU(x.m, k)
              low == SubN(x.m, ShlW(q, k), Len(x.m))
              c == CmpU(low, NatShl(<<1>>, k - 1))
          IN Dy(x.s, IF c > 0 \/ (c = 0 /\ Bit(q, 0) = 1) THEN NatAdd(q, <<1>>) ELSE q, x.e + k)

\* Half-precision fma() is carried out in single precision, and its result is
\* therefore rounded twice; both outcomes are admissible.
FmaOK(t, a, b, c, r) ==
  LET s == (FSign(a) + FSign(b)) % 2
  IN IF IsNaN(t, a) \/ IsNaN(t, b) \/ IsNaN(t, c) THEN IsNaN(t, r)
     ELSE IF IsInf(t, a) \/ IsInf(t, b)
          THEN IF IsFZero(t, a) \/ IsFZero(t, b) THEN IsNaN(t, r)
               ELSE IF IsInf(t, c) /\ FSign(c) # s THEN IsNaN(t, r) ELSE r = FInf(t, s)
     ELSE IF IsInf(t, c) THEN r = c
     ELSE LET p == DyMul(Val(t, a), Val(t, b))
              x == DyAdd(p, Val(t, c))
          IN IF IsZero(x.m) THEN r = FZero(t, IF s = 1 /\ FSign(c) = 1 THEN 1 ELSE 0)
             ELSE IsRound(t, r, x) \/ (t = "f16" /\ IsRound(t, r, RoundBits(x, 24)))

\* Comparison of non-NaN numbers: -1, 0, 1
FCmp(t, a, b) ==
  IF IsFZero(t, a) /\ IsFZero(t, b) THEN 0
  ELSE IF FSign(a) # FSign(b) THEN (IF FSign(a) = 1 THEN -1 ELSE 1)
  ELSE IF FSign(a) = 0 THEN CmpU(a, b) ELSE CmpU(b, a)
AnyNaN(t, a, b) == IsNaN(t, a) \/ IsNaN(t, b)

\* The sign of a zero returned by min/max of zeros is unspecified
MinMaxOK(t, a, b, r, isMin, propagate) ==
  IF AnyNaN(t, a, b)
  THEN IF propagate \/ (IsNaN(t, a) /\ IsNaN(t, b)) THEN IsNaN(t, r)
       ELSE r = (IF IsNaN(t, a) THEN b ELSE a)
  ELSE LET c == FCmp(t, a, b)
       IN IF c = 0 THEN r \in {a, b}
          ELSE r = IF (c < 0) = isMin THEN a ELSE b

\* Rounding to an integral value; the result keeps the sign of a
\* (mode: "floor", "ceil", "trunc", "round" = to nearest even)
IntegralOK(t, mode, a, r) ==
  IF IsNaN(t, a) THEN IsNaN(t, r)
  ELSE IF IsInf(t, a) \/ IsFZero(t, a) THEN r = a
  ELSE LET va == Val(t, a)
           k == -va.e                              \* number of fractional bits
           m == Fit(va.m, 8)
           isInt == k <= 0 \/ Ctz(m) >= k
           ip == IF k <= 0 THEN <<>> ELSE IF k >= 64 THEN Zero(8) ELSE ShrU(m, k)   \* |trunc|
           half == Dy(0, NatAdd(NatShl(ip, 1), <<1>>), -1)
           up == CASE mode = "trunc" -> FALSE
                   [] mode = "floor" -> FSign(a) = 1
                   [] mode = "ceil"  -> FSign(a) = 0
                   [] mode = "round" -> LET c == CmpMag(DyAbs(va), half)
                                        IN c > 0 \/ (c = 0 /\ ip[1] % 2 = 1)
           mag == IF up THEN NatAdd(ip, <<1>>) ELSE ip
       IN IF isInt THEN r = a
          ELSE /\ FSign(r) = FSign(a)
               /\ IsFinite(t, r)
               /\ CmpMag(DyAbs(Val(t, r)), Dy(0, mag, 0)) = 0

\* |trunc(a)| etc. as an integer word of n bytes (a finite and in range)
IntegralWord(t, mode, a, n) ==
  LET va == Val(t, a)
      k == -va.e
      m == Fit(va.m, 16)
      isInt == k <= 0 \/ IsZero(va.m) \/ Ctz(m) >= k
      ip == IF k <= 0 THEN (IF -k >= 64 THEN Zero(16) ELSE ShlW(m, -k)) ELSE IF k >= 64 THEN Zero(16) ELSE ShrU(m, k)
      half == Dy(0, NatAdd(NatShl(ip, 1), <<1>>), -1)
      up == IF isInt THEN FALSE
            ELSE CASE mode = "trunc" -> FALSE
                   [] mode = "floor" -> FSign(a) = 1
                   [] mode = "ceil"  -> FSign(a) = 0
                   [] mode = "round" -> LET c == CmpMag(DyAbs(va), half) IN c > 0 \/ (c = 0 /\ ip[1] % 2 = 1)
      mag == Fit(IF up THEN NatAdd(ip, <<1>>) ELSE ip, n)
  IN IF FSign(a) = 1 THEN NegW(mag) ELSE mag

\* Conversions
FromDyOK(t, x, r) == IF IsZero(x.m) THEN IsFZero(t, r) /\ FSign(r) = 0 ELSE IsRound(t, r, x)
FConvOK(t1, t2, a, r) ==
  IF IsNaN(t1, a) THEN IsNaN(t2, r)
  ELSE IF IsInf(t1, a) THEN r = FInf(t2, FSign(a))
  ELSE IF IsFZero(t1, a) THEN r = FZero(t2, FSign(a))
  ELSE IsRound(t2, r, Val(t1, a))
=============================================================================
