----------------------------- MODULE ScalarCheck ----------------------------
(* Compares the limb operators of Scalar, for a small base, with the          *)
(* mathematical definition: every pair of values of every modelled type.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS B, H, LB, Narrow, Types
S == INSTANCE Scalar

MCTypes == {[k |-> k, bits |-> b] : k \in {"i", "u"}, b \in {1, 2, 4, 6}} \ {[k |-> "i", bits |-> 1]}
VARIABLES ty, x, y

Size(t) == 2^t.bits
Dig(t, v) == IF S!Bits8(t) THEN << v >> ELSE [i \in 1..S!Limbs(t) |-> (v \div (B^(i-1))) % B]
Val(t, v) == IF t.k = "i" /\ v >= Size(t) \div 2 THEN v - Size(t) ELSE v
Enc(t, v) == Dig(t, v % Size(t))

Init == /\ ty \in Types
        /\ x \in 0..(Size(ty) - 1)
        /\ y \in 0..(Size(ty) - 1)
Next == UNCHANGED <<ty, x, y>>
Spec == Init /\ [][Next]_<<ty, x, y>>

X == Dig(ty, x)
Y == Dig(ty, y)
vx == Val(ty, x)
vy == Val(ty, y)
A(v) == IF v < 0 THEN 0 - v ELSE v
Q == LET q == A(vx) \div A(vy) IN IF (vx < 0) # (vy < 0) THEN 0 - q ELSE q
Bin(f, w) == IF S!IsNarrow(ty) THEN S!NBin(f, ty, X, Y) ELSE S!WBin(f, ty, X, Y, w)
Bit(v, i) == (v \div (2^i)) % 2
RECURSIVE BitSum(_, _, _)
BitSum(f(_, _), i, n) == IF i = n THEN 0 ELSE (2^i) * f(Bit(x, i), Bit(y, i)) + BitSum(f, i + 1, n)
AndB(a, b) == a * b
OrB(a, b) == IF a + b > 0 THEN 1 ELSE 0
XorB(a, b) == (a + b) % 2

Fits(v) == v >= 0 - (Size(ty) \div 2) /\ v < Size(ty) \div 2

Correct ==
  /\ Bin("+", <<>>) = Enc(ty, vx + vy)
  /\ Bin("-", <<>>) = Enc(ty, vx - vy)
  /\ Bin("*", <<>>) = Enc(ty, vx * vy)
  /\ Bin("&", <<>>) = Enc(ty, BitSum(AndB, 0, ty.bits))
  /\ Bin("|", <<>>) = Enc(ty, BitSum(OrB, 0, ty.bits))
  /\ Bin("^", <<>>) = Enc(ty, BitSum(XorB, 0, ty.bits))
  /\ (y # 0 /\ (ty.k = "u" \/ Fits(Q))) =>
        /\ Bin("/", Enc(ty, Q)) = Enc(ty, Q)
        /\ Bin("%", Enc(ty, Q)) = Enc(ty, vx - Q * vy)
        \* the witness is unique
        /\ ~S!IsNarrow(ty) => /\ ~S!IsQuotient(ty, X, Y, Enc(ty, Q + 1))
                              /\ ~S!IsQuotient(ty, X, Y, Enc(ty, Q - 1))
  /\ S!Less(ty, X, Y) = (vx < vy)
  /\ S!Cmp("<=", ty, X, Y) = (vx <= vy)
  /\ S!Cmp(">", ty, X, Y) = (vx > vy)
  /\ S!Cmp("!=", ty, X, Y) = (vx # vy)
  /\ S!SMin(ty, X, Y) = Enc(ty, IF vy < vx THEN vy ELSE vx)
  /\ S!SMax(ty, X, Y) = Enc(ty, IF vx < vy THEN vy ELSE vx)
  /\ S!Neg(ty, X) = Enc(ty, 0 - vx)
  /\ S!BNot(ty, X) = Enc(ty, (0 - vx) - 1)
  /\ y < ty.bits => /\ S!Shl(ty, X, y) = Enc(ty, vx * 2^y)
                    /\ S!Shr(ty, X, y) = Enc(ty, vx \div (2^y))
  /\ \A t \in Types : S!IConv(ty, t, X) = Enc(t, vx)
=============================================================================
