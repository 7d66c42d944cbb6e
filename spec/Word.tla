-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* Machine words and natural numbers of arbitrary size.                    *)
(*                                                                         *)
(* Both are represented by little-endian sequences of bytes (numbers in    *)
(* 0..255): a word of type u32/i32/f32 has 4 bytes, etc.  This avoids any  *)
(* dependence on the 32-bit integers of TLC.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8
             [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128
             [] n = 8 -> 256 [] OTHER -> 2^n

Byte(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0

Zero(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]
FromInt(v, n) == [i \in 1..n |-> IF i > 4 THEN 0 ELSE (v \div (256^(i-1))) % 256]   \* 0 <= v < 2^31
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Fit(a, n) == [i \in 1..n |-> Byte(a, i)]
MsbSet(a) == a[Len(a)] >= 128
SignFill(a) == IF MsbSet(a) THEN 255 ELSE 0
SExt(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE SignFill(a)]

\* Small words (< 2^31) as TLA+ integers
RECURSIVE ToIntR(_, _)
ToIntR(a, i) == IF i = 0 THEN 0 ELSE ToIntR(a, i - 1) + (IF a[i] = 0 THEN 0 ELSE a[i] * (256^(i-1)))
ToInt(a) == ToIntR(a, Len(a))

Bit(a, k) == (Byte(a, (k \div 8) + 1) \div Pow2(k % 8)) % 2          \* k = 0 is the LSB

------------------------------------------------------------------------------
(* Addition, subtraction, multiplication modulo 2^(8n) *)

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, n, i, c) ==
  IF i > n THEN <<>>
  ELSE LET s == Byte(a, i) + Byte(b, i) + c
       IN <<s % 256>> \o AddR(a, b, n, i + 1, s \div 256)
AddN(a, b, n) == AddR(a, b, n, 1, 0)
Inv(a) == [i \in 1..Len(a) |-> 255 - a[i]]
NegW(a) == AddR(Inv(a), <<1>>, Len(a), 1, 0)
SubN(a, b, n) == AddR(Fit(a, n), Inv(Fit(b, n)), n, 1, 1)

\* Sum of the byte products contributing to column k (1-based)
RECURSIVE ColR(_, _, _, _, _)
ColR(a, b, k, i, acc) ==
  IF i > Len(a) \/ i > k THEN acc
  ELSE LET j == k + 1 - i
       IN ColR(a, b, k, i + 1, IF j <= Len(b) THEN acc + a[i] * b[j] ELSE acc)
RECURSIVE MulR(_, _, _, _, _)
MulR(a, b, n, k, c) ==
  IF k > n THEN <<>>
  ELSE LET s == ColR(a, b, k, 1, 0) + c
       IN <<s % 256>> \o MulR(a, b, n, k + 1, s \div 256)
MulN(a, b, n) == MulR(a, b, n, 1, 0)

------------------------------------------------------------------------------
(* Comparison: -1, 0, 1 *)

RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF Byte(a, i) < Byte(b, i) THEN -1
  ELSE IF Byte(a, i) > Byte(b, i) THEN 1
  ELSE CmpR(a, b, i - 1)
CmpU(a, b) == CmpR(a, b, Max2(Len(a), Len(b)))
CmpS(a, b) == IF MsbSet(a) /\ ~MsbSet(b) THEN -1
              ELSE IF ~MsbSet(a) /\ MsbSet(b) THEN 1
              ELSE CmpU(a, b)

------------------------------------------------------------------------------
(* Bit-level operations *)

AndW(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
OrW(a, b)  == [i \in 1..Len(a) |-> a[i] | b[i]]
XorW(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

ShlW(a, k) ==     \* k < 8 * Len(a)
  LET q == k \div 8  r == k % 8
  IN [i \in 1..Len(a) |->
        ((Byte(a, i - q) * Pow2(r)) % 256) + (IF r = 0 THEN 0 ELSE Byte(a, i - q - 1) \div Pow2(8 - r))]

ShrFill(a, k, fill) ==
  LET q == k \div 8  r == k % 8
      B(i) == IF i <= Len(a) THEN a[i] ELSE fill
  IN [i \in 1..Len(a) |->
        (B(i + q) \div Pow2(r)) + (IF r = 0 THEN 0 ELSE (B(i + q + 1) * Pow2(8 - r)) % 256)]
ShrU(a, k) == ShrFill(a, k, 0)
ShrS(a, k) == ShrFill(a, k, SignFill(a))

BytePop(b) == (b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + ((b \div 8) % 2)
              + ((b \div 16) % 2) + ((b \div 32) % 2) + ((b \div 64) % 2) + (b \div 128)
RECURSIVE PopR(_, _)
PopR(a, i) == IF i = 0 THEN 0 ELSE BytePop(a[i]) + PopR(a, i - 1)
PopCount(a) == PopR(a, Len(a))

\* Number of significant bits of one byte / of a natural number
BLen8(b) == IF b >= 128 THEN 8 ELSE IF b >= 64 THEN 7 ELSE IF b >= 32 THEN 6 ELSE IF b >= 16 THEN 5
            ELSE IF b >= 8 THEN 4 ELSE IF b >= 4 THEN 3 ELSE IF b >= 2 THEN 2 ELSE b
RECURSIVE BLenR(_, _)
BLenR(a, i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN 8 * (i - 1) + BLen8(a[i]) ELSE BLenR(a, i - 1)
BLen(a) == BLenR(a, Len(a))

RECURSIVE CtzR(_, _)
CtzR(a, k) == IF k = 8 * Len(a) \/ Bit(a, k) = 1 THEN k ELSE CtzR(a, k + 1)
Ctz(a) == CtzR(a, 0)
Clz(a) == 8 * Len(a) - BLen(a)

Rev8(b) == ((b % 2) * 128) + (((b \div 2) % 2) * 64) + (((b \div 4) % 2) * 32) + (((b \div 8) % 2) * 16)
           + (((b \div 16) % 2) * 8) + (((b \div 32) % 2) * 4) + (((b \div 64) % 2) * 2) + (b \div 128)
Brev(a) == [i \in 1..Len(a) |-> Rev8(a[Len(a) + 1 - i])]

------------------------------------------------------------------------------
(* Natural numbers: sequences of bytes of varying length *)

NatShl(a, k) ==     \* exact left shift
  IF IsZero(a) THEN <<0>>
  ELSE LET n == Len(a) + (k \div 8) + 1 IN ShlW(Fit(a, n), k)
NatAdd(a, b) == AddN(a, b, Max2(Len(a), Len(b)) + 1)
NatSub(a, b) == SubN(a, b, Max2(Len(a), Len(b)))                    \* a >= b
NatMul(a, b) == MulN(a, b, Len(a) + Len(b))

\* Restoring division of n-byte words, from the most significant bit
RECURSIVE DivR(_, _, _, _, _)
DivR(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET r2 == AddR(ShlW(r, 1), <<Bit(a, k)>>, Len(r), 1, 0)
       IN IF CmpU(r2, b) >= 0
          THEN DivR(a, b, k - 1, [q EXCEPT ![(k \div 8) + 1] = @ + Pow2(k % 8)], SubN(r2, b, Len(r)))
          ELSE DivR(a, b, k - 1, q, r2)
DivModU(a, b) ==    \* b # 0
  LET n == Len(a)
      qr == DivR(a, b, BLen(a) - 1, Zero(n), Zero(n + 1))
  IN <<qr[1], Fit(qr[2], n)>>
=============================================================================
