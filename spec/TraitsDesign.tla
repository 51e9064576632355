----------------------------- MODULE TraitsDesign ---------------------------
(* Laws of the type-level specification, checked over all type trees of depth   *)
(* at most two with up to three members, and over all versions of a small digit. *)
EXTENDS Traits, TLC
Arith == { [k |-> "arith", t |-> "bool", bytes |-> 1, fp |-> 0], [k |-> "arith", t |-> "short", bytes |-> 2, fp |-> 0],
           [k |-> "arith", t |-> "float", bytes |-> 4, fp |-> 1], [k |-> "arith", t |-> "double", bytes |-> 8, fp |-> 1],
           [k |-> "arith", t |-> "long double", bytes |-> 16, fp |-> 1] }
Simds == [k : {"simd", "mask"}, t : {"short", "float"}, n : {1, 3, 4}, ok : {1}] \cup { [k |-> "simd", t |-> "bool", n |-> 4, ok |-> 0] }
Leaf == Arith \cup Simds \cup { [k |-> "abi"], [k |-> "other"] }
S1 == [k : {"struct"}, m : UNION { [1..j -> Leaf] : j \in 0..2 }]
Few == { [k |-> "arith", t |-> "short", bytes |-> 2, fp |-> 0], [k |-> "arith", t |-> "float", bytes |-> 4, fp |-> 1],
         [k |-> "simd", t |-> "short", n |-> 4, ok |-> 1], [k |-> "simd", t |-> "float", n |-> 3, ok |-> 1], [k |-> "other"] }
S1Few == [k : {"struct"}, m : UNION { [1..j -> Few] : j \in 0..2 }]
S2 == [k : {"struct"}, m : UNION { [1..j -> Few \cup S1Few] : j \in 1..2 }]
Types == Leaf \cup S1 \cup S2
V == (0..2) \X (0..2) \X (0..2)
Pack(a) == (a[1] * 9) + (a[2] * 3) + a[3]

VARIABLES d, a, b
Init == /\ d \in Types /\ a = <<0, 0, 0>> /\ b = <<0, 0, 0>>
        \/ /\ d = [k |-> "other"] /\ a \in V /\ b \in V
Spec == Init /\ [][UNCHANGED <<d, a, b>>]_<<d, a, b>>

Exclusive ==   \* nothing is a simd and a mask, an element type and a structure
  LET c == Concepts(d, "float", 4)
  IN /\ c[4] + c[5] = c[6] /\ c[2] <= c[1] /\ c[7] <= c[4] /\ c[8] <= c[4] /\ c[9] <= c[5]
     /\ c[1] + c[3] + c[4] + c[5] + c[10] <= 1
Leaves ==
  /\ (d.k = "struct" /\ VStruct(d)) => \A n \in {1, 4, 7} : SimdizeSize(Simdized(d, n)) = n
  /\ (d.k = "struct" /\ VStruct(d)) => SimdizeSize(d) = 0
  /\ (d.k = "struct" /\ VStruct(d)) => \A f \in {16, 32, 64} : \A i \in {16, 32} : i <= f =>
        /\ Widest(d, f, i) > 0
        /\ \A x \in DOMAIN d.m : Widest(d.m[x], f, i) <= Widest(d, f, i)
        /\ \E x \in DOMAIN d.m : Widest(d.m[x], f, i) = Widest(d, f, i)
  /\ SimdizeSize(d) # 0 /\ d.k = "struct" => \A x \in DOMAIN d.m : SimdizeSize(d.m[x]) = SimdizeSize(d)
Order ==       \* exactly one of <, =, > and agreement with the packed number
  LET v == VOps(a, b)
  IN /\ v[1] + v[3] + v[5] = 1 /\ v[2] = 1 - v[1] /\ v[4] = v[1] + v[3] /\ v[6] = v[1] + v[5]
     /\ (v[3] = 1) = (Pack(a) < Pack(b))
=============================================================================
