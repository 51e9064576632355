------------------------------- MODULE Traits --------------------------------
(***************************************************************************)
(* Type-level facts.  A type is described by a tree                           *)
(*   [k |-> "arith", t |-> name, bytes |-> size, fp |-> 0/1]   (t = "bool" too)  *)
(*   [k |-> "simd" | "mask", t |-> element type, n |-> size, ok |-> 1 if valid]   *)
(*   [k |-> "struct", m |-> sequence of member types]                           *)
(*   [k |-> "abi"], [k |-> "other"]                                             *)
(***************************************************************************)
EXTENDS Scalar

Bit(b) == IF b THEN 1 ELSE 0
(* ------------------------------ concepts --------------------------------- *)
Arithmetic(d) == d.k = "arith"
Vectorizable(d) == d.k = "arith" /\ d.t # "bool"
AbiTag(d) == d.k = "abi"
AnySimd(d) == d.k = "simd" /\ d.ok = 1
AnyMask(d) == d.k = "mask" /\ d.ok = 1
RECURSIVE VStruct(_)
VStruct(d) == d.k = "struct" /\ Len(d.m) > 0 /\ \A i \in DOMAIN d.m : Vectorizable(d.m[i]) \/ VStruct(d.m[i])
\* the concepts in the order in which the driver records them; t, n: arguments
Concepts(d, t, n) ==
  << Bit(Arithmetic(d)), Bit(Vectorizable(d)), Bit(AbiTag(d)), Bit(AnySimd(d)), Bit(AnyMask(d)), Bit(AnySimd(d) \/ AnyMask(d)),
     Bit(AnySimd(d) /\ d.t = t), Bit(AnySimd(d) /\ d.n = n), Bit(AnyMask(d) /\ d.n = n), Bit(VStruct(d)) >>

(* ------------------------------ sizes ------------------------------------ *)
\* width of the widest register for an element (of a machine with vector registers of fb / ib bytes)
Native(d, fb, ib) == IF d.bytes > 8 THEN 1 ELSE (IF d.fp = 1 THEN fb ELSE ib) \div d.bytes
\* width of a structure of simds, 0 if it has none
RECURSIVE SimdizeSize(_)
SimdizeSize(d) ==
  CASE d.k = "simd" -> IF d.ok = 1 THEN d.n ELSE 0
    [] d.k = "struct" -> IF d.m # <<>> /\ \A i \in DOMAIN d.m : SimdizeSize(d.m[i]) = SimdizeSize(d.m[1]) THEN SimdizeSize(d.m[1]) ELSE 0
    [] OTHER -> 0
\* default width of a simdized type: the maximum over its leaves
RECURSIVE Widest(_, _, _)
Widest(d, fb, ib) ==
  IF d.k = "arith" THEN Native(d, fb, ib)
  ELSE LET w == [i \in DOMAIN d.m |-> Widest(d.m[i], fb, ib)]
       IN CHOOSE x \in Range(w) : \A y \in Range(w) : y <= x
\* member types of a simdized structure
RECURSIVE Simdized(_, _)
Simdized(d, n) == IF d.k = "arith" THEN [k |-> "simd", t |-> d.t, n |-> n, ok |-> 1]
                  ELSE [k |-> "struct", m |-> [i \in DOMAIN d.m |-> Simdized(d.m[i], n)]]

(* ------------------------------ iota ------------------------------------- *)
Log2(i) == CHOOSE e \in 0..15 : P2(e) <= i /\ i < P2(e + 1)
\* i < 65536 as floating-point number
FOf(ty, i) ==
  IF i = 0 THEN Zero(Limbs(ty))
  ELSE LET e == Log2(i)
           f == i - P2(e)
       IN CASE ty.bits = 32 -> LET m == f * P2(23 - e) IN << m % B, (m \div B) + ((e + 127) * 128) >>
            [] ty.bits = 64 -> LET m == f * P2(20 - e) IN << 0, 0, m % B, (m \div B) + ((e + 1023) * 16) >>
            [] ty.bits = 80 -> << 0, 0, 0, i * P2(15 - e), e + 16383 >>
Number(ty, i) == IF ty.k = "f" THEN FOf(ty, i) ELSE FromInt(ty, i)

(* ------------------------------ versions --------------------------------- *)
VLess(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
VOps(a, b) == << Bit(a = b), Bit(a # b), Bit(VLess(a, b)), Bit(~VLess(b, a)), Bit(VLess(b, a)), Bit(~VLess(a, b)) >>
=============================================================================
