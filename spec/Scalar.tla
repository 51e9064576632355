------------------------------- MODULE Scalar -------------------------------
(***************************************************************************)
(* Values of the C++ arithmetic types and the scalar operators on them.     *)
(*                                                                         *)
(* A type is [k |-> "i" | "u" | "f", bits |-> 8, 16, 32, 64, 80].            *)
(* A value is the little-endian sequence of the base-B digits ("limbs") of  *)
(* its object representation (8-bit types: one limb below 256); every NaN   *)
(* is << -1 >>.                                                            *)
(*                                                                         *)
(* Integers of at most 16 bits are computed with TLC's integers (C++        *)
(* promotes them to int), wider ones limb by limb.  B = 65536 for traces;   *)
(* ScalarCheck compares all operators with the mathematical definition for  *)
(* a small base.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

CONSTANTS B, H, LB      \* base, its square root, log2 of the base
CONSTANT Narrow         \* bits of the widest type computed with TLC integers (16)

NaN == << -1 >>
IsNaN(x) == x = NaN

P2(n) == 2^n
Bits8(ty) == ty.bits < LB
Top(ty) == IF Bits8(ty) THEN P2(ty.bits) ELSE B        \* modulus of the top limb
Limbs(ty) == IF Bits8(ty) THEN 1 ELSE ty.bits \div LB

(* ------------------------------ digit sequences --------------------------- *)
Zero(n) == [i \in 1..n |-> 0]
IsZero(x) == \A i \in DOMAIN x : x[i] = 0

\* unsigned comparison of equally long digit sequences
RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, i) == IF i = 0 THEN 0
                    ELSE IF x[i] < y[i] THEN -1
                    ELSE IF x[i] > y[i] THEN 1
                    ELSE CmpFrom(x, y, i - 1)
UCmp(x, y) == CmpFrom(x, y, Len(x))

\* carry propagation: digits of any non-negative (or slightly negative) size
RECURSIVE CarryFrom(_, _, _, _)
CarryFrom(x, i, c, b) ==
  IF i > Len(x) THEN <<>>
  ELSE LET t == x[i] + c IN <<t % b>> \o CarryFrom(x, i + 1, t \div b, b)
Norm(x, b) == CarryFrom(x, 1, 0, b)

LAdd(x, y) == Norm([i \in DOMAIN x |-> x[i] + y[i]], B)
LSub(x, y) == Norm([i \in DOMAIN x |-> x[i] - y[i]], B)
LNeg(x) == LSub(Zero(Len(x)), x)
LNot(x) == [i \in DOMAIN x |-> (B - 1) - x[i]]

Halves(x) == [i \in 1..(2 * Len(x)) |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] % H ELSE x[i \div 2] \div H]
Join(h) == [i \in 1..(Len(h) \div 2) |-> h[2 * i - 1] + H * h[2 * i]]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* product modulo B^n
RECURSIVE SumTo(_, _, _)
SumTo(f, i, n) == IF i > n THEN 0 ELSE f[i] + SumTo(f, i + 1, n)
LMulN(x, y, n) ==
  LET hx == Halves(x)
      hy == Halves(y)
      conv == [k \in 1..(2 * n) |->
                 LET lo == Max2(1, k + 1 - Len(hy))
                     hi == Min2(k, Len(hx))
                 IN SumTo([i \in 1..Max2(0, hi) |-> IF i >= lo THEN hx[i] * hy[k + 1 - i] ELSE 0], 1, hi)]
  IN Join(Norm(conv, H))
LMul(x, y) == LMulN(x, y, Len(x))

LShl(x, s) ==
  LET q == s \div LB
      r == s % LB
      D(i) == IF i >= 1 THEN x[i] ELSE 0
  IN [i \in DOMAIN x |-> ((D(i - q) % P2(LB - r)) * P2(r)) + (D(i - q - 1) \div P2(LB - r))]
\* right shift, filling with the digit f (0 or B-1)
LShr(x, s, f) ==
  LET q == s \div LB
      r == s % LB
      D(i) == IF i <= Len(x) THEN x[i] ELSE f
  IN [i \in DOMAIN x |-> (D(i + q) \div P2(r)) + ((D(i + q + 1) % P2(r)) * P2(LB - r))]

SignBit(ty, x) == x[Len(x)] >= Top(ty) \div 2
IsNeg(ty, x) == ty.k = "i" /\ SignBit(ty, x)
Mag(ty, x) == IF IsNeg(ty, x) THEN LNeg(x) ELSE x

(* ------------------------------ integers ----------------------------------- *)
IsNarrow(ty) == ty.k # "f" /\ ty.bits <= Narrow
NVal(ty, x) == IF IsNeg(ty, x) THEN x[1] - Top(ty) ELSE x[1]       \* narrow: to TLC integer
NEnc(ty, v) == << v % P2(ty.bits) >>

\* value of a small integer (|v| < 2^30) in type ty
FromInt(ty, v) ==
  IF IsNarrow(ty) THEN NEnc(ty, v)
  ELSE LET p == Norm([i \in 1..Limbs(ty) |-> IF i = 1 THEN v ELSE 0], B) IN p

\* C++ integral conversion
IConv(from, to, x) ==
  LET fill == IF IsNeg(from, x) THEN B - 1 ELSE 0
      wide == IF Bits8(from) THEN << IF IsNeg(from, x) THEN x[1] + B - P2(from.bits) ELSE x[1] >> ELSE x
      D(i) == IF i <= Len(wide) THEN wide[i] ELSE fill
  IN IF Bits8(to) THEN << D(1) % P2(to.bits) >> ELSE [i \in 1..Limbs(to) |-> D(i)]

AbsI(v) == IF v < 0 THEN 0 - v ELSE v
TruncDiv(x, y) == LET q == AbsI(x) \div AbsI(y) IN IF (x < 0) # (y < 0) THEN 0 - q ELSE q

NBin(f, ty, xl, yl) ==
  LET x == NVal(ty, xl)
      y == NVal(ty, yl)
  IN CASE f = "+" -> NEnc(ty, x + y)
       [] f = "-" -> NEnc(ty, x - y)
       [] f = "*" -> NEnc(ty, x * y)
       [] f = "/" -> NEnc(ty, TruncDiv(x, y))
       [] f = "%" -> NEnc(ty, x - (TruncDiv(x, y) * y))
       [] f = "&" -> << xl[1] & yl[1] >>
       [] f = "|" -> << xl[1] | yl[1] >>
       [] f = "^" -> << xl[1] ^^ yl[1] >>

\* is q the truncated quotient of x and y?
IsQuotient(ty, x, y, q) ==
  LET n == Len(x)
      p == LMulN(Mag(ty, q), Mag(ty, y), 2 * n)
      mx == Mag(ty, x) \o Zero(n)
  IN /\ UCmp(p, mx) <= 0
     /\ UCmp(Norm([i \in DOMAIN p |-> mx[i] - p[i]], B), Mag(ty, y) \o Zero(n)) < 0
     /\ ~IsZero(q) => (IsNeg(ty, q) <=> (IsNeg(ty, x) # IsNeg(ty, y)))

\* q: a witness for the quotient, used by / and % only
WBin(f, ty, x, y, q) ==
  CASE f = "+" -> LAdd(x, y)
    [] f = "-" -> LSub(x, y)
    [] f = "*" -> LMul(x, y)
    [] f = "/" -> IF IsQuotient(ty, x, y, q) THEN q ELSE <<-99>>
    [] f = "%" -> IF IsQuotient(ty, x, y, q) THEN LSub(x, LMul(q, y)) ELSE <<-99>>
    [] f = "&" -> [i \in DOMAIN x |-> x[i] & y[i]]
    [] f = "|" -> [i \in DOMAIN x |-> x[i] | y[i]]
    [] f = "^" -> [i \in DOMAIN x |-> x[i] ^^ y[i]]

\* shifts; s: the count as an integer
Shl(ty, x, s) == IF IsNarrow(ty)
                 THEN IF s >= ty.bits THEN <<0>> ELSE << (x[1] % P2(ty.bits - s)) * P2(s) >>
                 ELSE LShl(x, s)
Shr(ty, x, s) == IF IsNarrow(ty)
                 THEN IF s >= ty.bits THEN << IF IsNeg(ty, x) THEN P2(ty.bits) - 1 ELSE 0 >>
                      ELSE NEnc(ty, NVal(ty, x) \div P2(s))
                 ELSE LShr(x, s, IF IsNeg(ty, x) THEN B - 1 ELSE 0)

(* ------------------------------ floating point ----------------------------- *)
FNeg(x) == x[Len(x)] >= B \div 2
FMag(x) == [i \in DOMAIN x |-> IF i = Len(x) THEN x[i] % (B \div 2) ELSE x[i]]
FFlip(x) == IF IsNaN(x) THEN x
            ELSE [i \in DOMAIN x |-> IF i = Len(x) THEN (x[i] + (B \div 2)) % B ELSE x[i]]
FLess(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN FALSE
  ELSE LET mx == FMag(x)
           my == FMag(y)
       IN IF IsZero(mx) /\ IsZero(my) THEN FALSE
          ELSE IF FNeg(x) # FNeg(y) THEN FNeg(x)
          ELSE IF FNeg(x) THEN UCmp(mx, my) > 0 ELSE UCmp(mx, my) < 0
FEq(x, y) == /\ ~IsNaN(x) /\ ~IsNaN(y)
             /\ x = y \/ (IsZero(FMag(x)) /\ IsZero(FMag(y)))

\* exponent field: bits in the top limb / value of the largest exponent
ExpShift(ty) == CASE ty.bits = 32 -> 7 [] ty.bits = 64 -> 4 [] ty.bits = 80 -> 0
ExpMax(ty) == CASE ty.bits = 32 -> 255 [] ty.bits = 64 -> 2047 [] ty.bits = 80 -> 32767
ExpOf(ty, x) == (x[Len(x)] % 32768) \div P2(ExpShift(ty))
IsInf(ty, x) == ~IsNaN(x) /\ ExpOf(ty, x) = ExpMax(ty)
IsFinite(ty, x) == ~IsNaN(x) /\ ExpOf(ty, x) # ExpMax(ty)
IsFZero(x) == ~IsNaN(x) /\ IsZero(FMag(x))
IsSubnormal(ty, x) == ~IsNaN(x) /\ ExpOf(ty, x) = 0 /\ ~IsFZero(x)
IsNormal(ty, x) == IsFinite(ty, x) /\ ExpOf(ty, x) # 0

\* integer value of a float that holds a small integer
FInt(ty, x) ==
  IF IsFZero(x) THEN 0
  ELSE LET e == ExpOf(ty, x) - (ExpMax(ty) \div 2)
           n == Len(x)
           m == CASE ty.bits = 32 -> (P2(23) + ((x[2] % 128) * 65536) + x[1]) \div P2(23 - e)
                  [] ty.bits = 64 -> (P2(20) + ((x[4] % 16) * 65536) + x[3]) \div P2(20 - e)
                  [] ty.bits = 80 -> x[4] \div P2(15 - e)
       IN IF FNeg(x) THEN 0 - m ELSE m

(* ------------------------------ generic ------------------------------------- *)
Less(ty, x, y) ==
  CASE ty.k = "f" -> FLess(x, y)
    [] ty.k = "u" -> UCmp(x, y) < 0
    [] ty.k = "i" -> IF IsNeg(ty, x) # IsNeg(ty, y) THEN IsNeg(ty, x) ELSE UCmp(x, y) < 0
Eq(ty, x, y) == IF ty.k = "f" THEN FEq(x, y) ELSE x = y

Cmp(f, ty, x, y) ==
  CASE f = "==" -> Eq(ty, x, y)
    [] f = "!=" -> ~Eq(ty, x, y)
    [] f = "<"  -> Less(ty, x, y)
    [] f = ">"  -> Less(ty, y, x)
    [] f = "<=" -> Less(ty, x, y) \/ Eq(ty, x, y)
    [] f = ">=" -> Less(ty, y, x) \/ Eq(ty, x, y)

IsSZero(ty, x) == IF ty.k = "f" THEN IsFZero(x) ELSE IsZero(x)

SMin(ty, x, y) == IF Less(ty, y, x) THEN y ELSE x
SMax(ty, x, y) == IF Less(ty, x, y) THEN y ELSE x
SClamp(ty, v, lo, hi) == IF Less(ty, v, lo) THEN lo ELSE IF Less(ty, hi, v) THEN hi ELSE v

Neg(ty, x) == CASE ty.k = "f" -> FFlip(x)
                [] IsNarrow(ty) -> NEnc(ty, 0 - NVal(ty, x))
                [] OTHER -> LNeg(x)
BNot(ty, x) == IF IsNarrow(ty) THEN << (P2(ty.bits) - 1) - x[1] >> ELSE LNot(x)
=============================================================================
