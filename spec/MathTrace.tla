------------------------------ MODULE MathTrace ------------------------------
(* <cmath> on simd: every function is the lane-wise lift of the scalar          *)
(* function. The scalar functions are uninterpreted (the record carries the     *)
(* table of their values at the arguments of each lane) except for those that    *)
(* are determined by the representation: classification, sign manipulation and    *)
(* comparisons, which are defined here.                                          *)
EXTENDS Scalar, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]

Undefined == <<-99>>
Bit(p) == IF p THEN 1 ELSE 0
\* glibc: FP_NAN 0, FP_INFINITE 1, FP_ZERO 2, FP_SUBNORMAL 3, FP_NORMAL 4
Class(t, x) == CASE IsNaN(x) -> 0 [] IsInf(t, x) -> 1 [] IsFZero(x) -> 2 [] IsSubnormal(t, x) -> 3 [] OTHER -> 4
AbsF(x) == IF IsNaN(x) THEN x ELSE FMag(x)
Unordered(x, y) == IsNaN(x) \/ IsNaN(y)

\* value defined by the specification, or Undefined
Interp(t, f, x, y) ==
  CASE f = "isnan" -> << Bit(IsNaN(x)) >>
    [] f = "isinf" -> << Bit(IsInf(t, x)) >>
    [] f = "isfinite" -> << Bit(IsFinite(t, x)) >>
    [] f = "isnormal" -> << Bit(IsNormal(t, x)) >>
    [] f = "signbit" /\ ~IsNaN(x) -> << Bit(FNeg(x)) >>
    [] f = "fpclassify" -> FromInt([k |-> "i", bits |-> 32], Class(t, x))
    [] f = "abs" -> AbsF(x)
    [] f = "copysign" /\ ~IsNaN(y) -> IF IsNaN(x) THEN x ELSE IF FNeg(y) = FNeg(x) THEN x ELSE FFlip(x)
    [] f = "isgreater" -> << Bit(FLess(y, x)) >>
    [] f = "isgreaterequal" -> << Bit(FLess(y, x) \/ FEq(x, y)) >>
    [] f = "isless" -> << Bit(FLess(x, y)) >>
    [] f = "islessequal" -> << Bit(FLess(x, y) \/ FEq(x, y)) >>
    [] f = "islessgreater" -> << Bit(FLess(x, y) \/ FLess(y, x)) >>
    [] f = "isunordered" -> << Bit(Unordered(x, y)) >>
    [] f = "iabs" -> IF SignBit(t, x) THEN Neg(t, x) ELSE x
    [] OTHER -> Undefined

Accept(r) ==
  /\ r.fault = 0
  /\ Len(r.out) = r.N /\ Len(r.x) = r.N
  /\ \A i \in 1..r.N :
       LET v == Interp(r.ty, r.f, r.x[i], r.y[i])
           \* the sign of a zero result of fmin/fmax of zeros is unspecified by the C standard
           free == r.f \in {"fmin", "fmax"} /\ IsFZero(r.x[i]) /\ IsFZero(r.y[i])
       IN /\ IF free THEN IsFZero(r.out[i]) ELSE r.out[i] = r.ref[i]
          /\ v # Undefined => r.out[i] = v
  /\ r.out2 = r.ref2              \* value written through a pointer parameter

Init == l = 1
Next == l <= Len(Trace) /\ Accept(R) /\ l' = l + 1 /\ TLCSet(1, l + 1)
TraceSpec == Init /\ TLCSet(1, 1) /\ [][Next]_l
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
