-------------------------------- MODULE Move --------------------------------
(***************************************************************************)
(* Operations that move elements without computing with them: casts, split, *)
(* concat, resize, bit casts, permutations, shifts, structure-of-arrays      *)
(* transposition.  A vector is a sequence of elements, an element is an      *)
(* opaque value (in traces: its object representation as in Scalar).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Concat(vs) == FlattenSeq(vs)

\* consecutive parts of the given sizes
RECURSIVE Prefix(_, _)
Prefix(sizes, k) == IF k = 0 THEN 0 ELSE sizes[k] + Prefix(sizes, k - 1)
Split(v, sizes) == [k \in DOMAIN sizes |-> SubSeq(v, Prefix(sizes, k - 1) + 1, Prefix(sizes, k))]

Resize(v, m, zero) == [i \in 1..m |-> IF i <= Len(v) THEN v[i] ELSE zero]

(* ---------------------------- permutations ------------------------------- *)
PZero == 2147483647                 \* simd_permute_zero
PUninit == 2147483646               \* simd_permute_uninit

\* index function of the predefined permutations for a source of n elements
Index(name, a, i, n) ==
  CASE name = "duplicate_even" -> i - (i % 2)
    [] name = "duplicate_odd" -> i + 1 - (i % 2)
    [] name = "swap_neighbors" -> IF (i \div a) % 2 = 0 THEN i + a ELSE i - a
    [] name = "broadcast" -> a
    [] name = "reverse" -> (0 - 1) - i
    [] name = "rotate" -> (i + a) % n
    [] name = "shift" -> IF i + a >= n \/ i + a < 0 THEN PZero ELSE i + a

\* the element an index selects (negative: from the end); uninit: any element
Select(v, j, zero, any) ==
  CASE j = PZero -> zero
    [] j = PUninit -> any
    [] j < 0 -> v[Len(v) + j + 1]
    [] OTHER -> v[j + 1]
Permute(v, m, F(_), zero, any) == [k \in 1..m |-> Select(v, F(k - 1), zero, any[k])]

\* window of the concatenated inputs that starts at offset; before the first input
\* lies another copy of the first input, everything else is zero
ShiftIn(vs, offset, zero) ==
  LET w == Len(vs[1])
      all == Concat(vs)
  IN [k \in 1..w |-> LET j == offset + k - 1 IN
        CASE j >= w * Len(vs) -> zero
          [] j >= 0 -> all[j + 1]
          [] j < 0 - w -> zero
          [] OTHER -> vs[1][w + j + 1]]

(* ---------------- arrays of structures and structures of arrays ------------ *)
\* an object is the sequence of its leaf members
ToSoA(objs) == [m \in DOMAIN objs[1] |-> [i \in DOMAIN objs |-> objs[i][m]]]
ToAoS(soa) == [i \in DOMAIN soa[1] |-> [m \in DOMAIN soa |-> soa[m][i]]]
=============================================================================
