----------------------------- MODULE MoveDesign -----------------------------
(* Algebraic laws of Move, checked exhaustively for small sizes: a machine      *)
(* applies arbitrary sequences of the permutations to one vector of distinct    *)
(* elements; the inverses, the conservation of elements and the round trips     *)
(* must hold in every reachable state.                                         *)
EXTENDS Move, FiniteSets, FiniteSetsExt, TLC
CONSTANT MaxN
VARIABLE v, net        \* the vector; the accumulated rotation (while only rotating)

Ident(n) == [i \in 1..n |-> i]
Apply(name, a, x) == LET F(i) == Index(name, a, i, Len(x)) IN Permute(x, Len(x), F, 0, x)
Offsets(n) == -(n + 2)..(n + 2)
Init == \E n \in 1..MaxN : v = Ident(n) /\ net = 0
Rotate == \E a \in Offsets(Len(v)) : v' = Apply("rotate", a, v) /\ net' = (net + a) % Len(v)
Next == net >= 0 /\ Rotate
Spec == Init /\ [][Next]_<<v, net>>

Elements(x) == {x[i] : i \in DOMAIN x}
\* composing rotations is rotating by the sum
RotationsAdd == v = Apply("rotate", net, Ident(Len(v)))
Conserves == Elements(v) = 1..Len(v)
Inverses ==
  /\ \A a \in Offsets(Len(v)) : Apply("rotate", 0 - a, Apply("rotate", a, v)) = v
  /\ Apply("reverse", 0, Apply("reverse", 0, v)) = v
  /\ Apply("reverse", 0, v) = Reverse(v)
  /\ \A a \in 1..Len(v) : Len(v) % (2 * a) = 0 =>
        /\ Apply("swap_neighbors", a, Apply("swap_neighbors", a, v)) = v
        /\ Elements(Apply("swap_neighbors", a, v)) = Elements(v)
        /\ 2 * a = Len(v) => Apply("swap_neighbors", a, v) = Apply("rotate", a, v)
  /\ Len(v) % 2 = 0 => /\ Apply("duplicate_even", 0, Apply("duplicate_odd", 0, v)) = Apply("duplicate_odd", 0, v)
                       /\ Apply("duplicate_odd", 0, Apply("swap_neighbors", 1, v)) = Apply("duplicate_even", 0, v)
ShiftLaws ==
  \A a \in Offsets(Len(v)) :
     LET s == Apply("shift", a, v)
         r == Apply("rotate", a, v)
     IN /\ \A i \in DOMAIN v : s[i] \in {0, r[i]}
        /\ Cardinality({i \in DOMAIN v : s[i] # 0}) = (LET k == Len(v) - (IF a < 0 THEN 0 - a ELSE a) IN IF k < 0 THEN 0 ELSE k)
        \* shifting a vector into itself is rotating
        /\ a \in 0..Len(v) => ShiftIn(<<v, v>>, a, 0) = r
        /\ a >= 0 => ShiftIn(<<v>>, a, 0) = s
        /\ a = Len(v) => ShiftIn(<<v, Reverse(v)>>, a, 0) = Reverse(v)
Compositions(n) == UNION {{s \in [1..k -> 1..n] : Prefix(s, k) = n} : k \in 1..Min({n, 4})}
SplitLaws ==
  \A s \in Compositions(Len(v)) :
     LET p == Split(v, s)
     IN /\ Concat(p) = v
        /\ \A k \in DOMAIN s : Len(p[k]) = s[k]
        /\ Split(Concat(p), s) = p
ResizeLaws ==
  /\ \A m \in 1..(MaxN + 2) : /\ Len(Resize(v, m, 0)) = m
                              /\ m >= Len(v) => Resize(Resize(v, m, 0), Len(v), 0) = v
                              /\ m <= Len(v) => Resize(v, m, 0) = SubSeq(v, 1, m)
Transposition ==
  \A k \in 1..Len(v) : Len(v) % k = 0 =>
     LET objs == Split(v, [i \in 1..(Len(v) \div k) |-> k])
     IN /\ ToAoS(ToSoA(objs)) = objs
        /\ \A i \in DOMAIN objs : \A m \in 1..k : ToSoA(objs)[m][i] = objs[i][m]
=============================================================================
