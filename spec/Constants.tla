----------------------------- MODULE Constants ------------------------------
(***************************************************************************)
(* Integer constants and constant expressions of C++ (LP64): the type and    *)
(* value of every operator, and of integer literals.                          *)
(* A constant is [t |-> name of the type, v |-> limbs as in Scalar].           *)
(***************************************************************************)
EXTENDS Scalar

Type(t) ==
  CASE t = "bool" -> [k |-> "u", bits |-> 8]
    [] t \in {"char", "signed char"} -> [k |-> "i", bits |-> 8]
    [] t = "unsigned char" -> [k |-> "u", bits |-> 8]
    [] t = "short int" -> [k |-> "i", bits |-> 16]
    [] t = "short unsigned int" -> [k |-> "u", bits |-> 16]
    [] t = "int" -> [k |-> "i", bits |-> 32]
    [] t = "unsigned int" -> [k |-> "u", bits |-> 32]
    [] t \in {"long int", "long long int"} -> [k |-> "i", bits |-> 64]
    [] t \in {"long unsigned int", "long long unsigned int"} -> [k |-> "u", bits |-> 64]

Rank(t) == CASE t \in {"int", "unsigned int"} -> 1
             [] t \in {"long int", "long unsigned int"} -> 2
             [] t \in {"long long int", "long long unsigned int"} -> 3
             [] OTHER -> 0
Signed(t) == Type(t).k = "i"
Unsigned(t) == CASE t = "int" -> "unsigned int" [] t = "long int" -> "long unsigned int" [] t = "long long int" -> "long long unsigned int"
                 [] OTHER -> t

\* integral promotion and usual arithmetic conversions
Promote(t) == IF Rank(t) = 0 THEN "int" ELSE t
Common(s, t) ==
  LET a == Promote(s)
      b == Promote(t)
      hi == IF Rank(a) >= Rank(b) THEN a ELSE b
      u == IF Signed(a) THEN b ELSE a
      i == IF Signed(a) THEN a ELSE b
  IN IF Signed(a) = Signed(b) THEN hi
     ELSE IF Rank(u) >= Rank(i) THEN u
     ELSE IF Type(i).bits > Type(u).bits THEN i
     ELSE Unsigned(i)

Const(t, v) == [t |-> t, v |-> v]
Bool(b) == Const("bool", << IF b THEN 1 ELSE 0 >>)
As(t, c) == IF t = "bool" THEN Bool(~IsZero(c.v)) ELSE Const(t, IConv(Type(c.t), Type(t), c.v))
True(c) == ~IsZero(c.v)

Arith == {"+", "-", "*", "/", "%", "&", "|", "^"}
Compare == {"==", "!=", "<", "<=", ">", ">="}
\* the value of a shift count
Count(c) == c.v[1]

\* q: witness for the quotient (in the common type)
Binary(f, a, b, q) ==
  LET t == Common(a.t, b.t)
      x == As(t, a).v
      y == As(t, b).v
      p == As(Promote(a.t), a)
  IN CASE f \in Arith -> Const(t, WBin(f, Type(t), x, y, q))
       [] f \in Compare -> Bool(Cmp(f, Type(t), x, y))
       [] f = "<<" -> Const(p.t, Shl(Type(p.t), p.v, Count(b)))
       [] f = ">>" -> Const(p.t, Shr(Type(p.t), p.v, Count(b)))
       [] f = "&&" -> Bool(True(a) /\ True(b))
       [] f = "||" -> Bool(True(a) \/ True(b))
       [] f = "," -> b
Unary(f, a) ==
  LET p == As(Promote(a.t), a)
  IN CASE f = "+" -> p
       [] f = "-" -> Const(p.t, Neg(Type(p.t), p.v))
       [] f = "~" -> Const(p.t, BNot(Type(p.t), p.v))
       [] f = "!" -> Bool(~True(a))

(* ------------------------------ literals ---------------------------------- *)
Digit(c) ==
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
    [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
    [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15
    [] OTHER -> 99
BaseOf(s) == IF Len(s) >= 2 /\ s[1] = "0" THEN (IF s[2] \in {"x", "X"} THEN 16 ELSE IF s[2] \in {"b", "B"} THEN 2 ELSE 8) ELSE 10
DigitsOf(s) == LET n == CASE BaseOf(s) = 10 -> 1 [] BaseOf(s) = 8 -> 2 [] OTHER -> 3
               IN SelectSeq(SubSeq(s, n, Len(s)), LAMBDA c : c # "'")
\* the value as 7 limbs (112 bits)
Horner(digits, base, zero) ==
  FoldLeft(LAMBDA acc, d : Norm([i \in DOMAIN acc |-> (acc[i] * base) + (IF i = 1 THEN Digit(d) ELSE 0)], B), zero, digits)
LiteralValue(s) == Horner(DigitsOf(s), BaseOf(s), Zero(7))
WellFormed(s) == \A c \in Range(DigitsOf(s)) : Digit(c) < BaseOf(s)
Below(v, n) == \A i \in DOMAIN v : LET lo == LB * (i - 1) IN v[i] < (IF n >= lo + LB THEN B ELSE IF n <= lo THEN 1 ELSE P2(n - lo))
\* smallest signed type that holds the value, unsigned long long if none does
LiteralType(v) ==
  CASE Below(v, 7) -> "signed char"
    [] Below(v, 15) -> "short int"
    [] Below(v, 31) -> "int"
    [] Below(v, 63) -> "long int"
    [] OTHER -> "long long unsigned int"
Literal(s) == LET v == LiteralValue(s)
                  t == LiteralType(v)
              IN Const(t, IF Type(t).bits = 8 THEN << v[1] >> ELSE SubSeq(v, 1, Limbs(Type(t))))
Representable(s) == WellFormed(s) /\ Below(LiteralValue(s), 64)

(* ---------------- an operand type with observable operators ---------------- *)
\* every operator of the driver's class Sym records operator and operands
SymOps == << "+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", ",", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "->*",
             "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=" >>
SymUn == << "+", "-", "~", "!", "*", "++", "post++", "--", "post--" >>
Index(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
SymBinary(f, a, b) == (Index(SymOps, f) * 10000) + (a * 100) + b
SymUnary(f, a) == 1000000 + (Index(SymUn, f) * 100) + a
=============================================================================
