----------------------------- MODULE ConstDesign ----------------------------
(* Laws of Constants, checked for all type pairs and all literals of small      *)
(* values in every base with every single digit separator.                     *)
EXTENDS Constants, TLC
CONSTANT MaxV
VARIABLES val, base, sep
Types == {"bool", "char", "signed char", "unsigned char", "short int", "short unsigned int", "int", "unsigned int", "long int",
          "long unsigned int", "long long int", "long long unsigned int"}
Chars == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "B", "c", "D", "e", "F" >>
RECURSIVE Write(_, _)
Write(v, b) == IF v < b THEN << Chars[v + 1] >> ELSE Write(v \div b, b) \o << Chars[(v % b) + 1] >>
Prefixed(v, b) == (CASE b = 2 -> <<"0", "b">> [] b = 8 -> <<"0">> [] b = 10 -> <<>> [] b = 16 -> <<"0", "X">>) \o Write(v, b)
Spelled(v, b, k) == LET s == Prefixed(v, b)
                        n == (IF b \in {2, 16} THEN 3 ELSE 1) + k
                    IN IF k = 0 \/ n > Len(s) THEN s ELSE SubSeq(s, 1, n - 1) \o <<"'">> \o SubSeq(s, n, Len(s))
Init == val \in 0..MaxV /\ base \in {2, 8, 10, 16} /\ sep \in 0..8
Next == UNCHANGED <<val, base, sep>>
Spec == Init /\ [][Next]_<<val, base, sep>>
LiteralOk ==
  LET s == Spelled(val, base, sep)
      v == LiteralValue(s)
  IN /\ Representable(s)
     /\ v[1] + (65536 * v[2]) = val /\ IsZero(SubSeq(v, 3, 7))
     /\ Literal(s).t = (IF val < 128 THEN "signed char" ELSE IF val < 32768 THEN "short int" ELSE "int")
CommonOk == \A s, t \in Types : Common(s, t) = Common(t, s) /\ Common(t, t) = Promote(t) /\ Common(Common(s, t), t) = Common(s, t)
Once == val = 0 => CommonOk
=============================================================================
