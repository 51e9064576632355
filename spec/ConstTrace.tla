----------------------------- MODULE ConstTrace -----------------------------
(* Recorded results of vir/constexpr_wrapper.h.                                *)
(*   wrapped = 1: the result is a constexpr_wrapper (of the given constant)    *)
EXTENDS Constants, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]

Accept(r) ==
  CASE r.op = "binary" -> r.wrapped = r.const /\ r.out = Binary(r.name, r.a, r.b, r.q)
    [] r.op = "unary" -> r.wrapped = 1 /\ r.out = Unary(r.name, r.a)
    [] r.op = "literal" -> r.wrapped = 1 /\ r.out = Literal(r.s)
    [] r.op = "compile literal" -> r.compiled = (IF Representable(r.s) THEN 1 ELSE 0)
    [] r.op = "sym binary" -> r.wrapped = r.const /\ r.out = SymBinary(r.name, r.a, r.b)
    [] r.op = "sym unary" -> r.wrapped = 1 /\ r.out = SymUnary(r.name, r.a)
    [] r.op = "call" ->               \* the function of the driver: digits of the arguments in order
         r.wrapped = r.const /\ r.out = r.fn * 1000 + FoldLeft(LAMBDA acc, x : (acc * 10) + x, 0, r.args)
    [] r.op = "subscript" -> r.wrapped = r.const /\ r.out = r.arr[r.i + 1]
    [] r.op = "value" -> r.out = r.ref
    [] r.op = "truth" -> r.out = r.expected

Init == l = 1
Next == l <= Len(Trace) /\ Accept(R) /\ l' = l + 1 /\ TLCSet(1, l + 1)
TraceSpec == Init /\ TLCSet(1, 1) /\ [][Next]_l
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
