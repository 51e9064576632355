---------------------------- MODULE PrecondTrace -----------------------------
(* Precondition checking: a call is a process that either returns or is        *)
(* stopped. Which of the two, and how, is a function of the precondition and   *)
(* of the check level (0..5, see README.md).                                   *)
(*                                                                            *)
(*   level   violation known at compile time   violation at run time           *)
(*     0     warning                           undefined                       *)
(*     1     error                             undefined                       *)
(*     2     warning                           trap                            *)
(*     3     error                             trap                            *)
(*     4     warning                           message, abort                  *)
(*     5     error                             message, abort                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]

Algorithms == {"for_each", "transform", "transform1", "reduce", "reduce0", "count_if"}
Subscripts == {"sub", "csub", "set", "msub", "cmsub"}
Searches == {"ffs", "fls"}

Holds(r) ==
  CASE r.kind \in Algorithms -> r.n % r.S = 0                       \* matching size
    [] r.kind \in Subscripts -> r.n < r.S                           \* index in range
    [] r.kind \in Searches   -> \E i \in 1..Len(r.bits) : r.bits[i] = 1  \* not empty

OnViolation(level) == CASE level \in {0, 1} -> "undefined"
                        [] level \in {2, 3} -> "trap"
                        [] level \in {4, 5} -> "abort"

SetBits(r) == {i \in 1..Len(r.bits) : r.bits[i] = 1}
Value(i) == ((i * 7) % 100) + 1

Result(r) ==
  CASE r.kind \in {"for_each", "transform", "transform1", "count_if"} -> r.n
    [] r.kind \in {"reduce", "reduce0"} -> Cardinality({i \in 0..r.n - 1 : i % 3 = 1})
    [] r.kind \in {"sub", "csub"} -> Value(r.n)
    [] r.kind = "set" -> r.S - (IF Value(r.n) = 3 THEN 0 ELSE 1)    \* all other elements unchanged
    [] r.kind \in {"msub", "cmsub"} -> IF r.n % 3 = 0 THEN 0 ELSE 1
    [] r.kind = "ffs" -> (CHOOSE i \in SetBits(r) : \A j \in SetBits(r) : i <= j) - 1
    [] r.kind = "fls" -> (CHOOSE i \in SetBits(r) : \A j \in SetBits(r) : i >= j) - 1

Run(r) ==
  IF Holds(r)
  THEN /\ r.end = "return" /\ r.msg = 0
       /\ r.res = Result(r)
       /\ r.kind \in Algorithms \ {"reduce0"} => r.seen = r.n
  ELSE \/ OnViolation(r.level) = "undefined"
       \/ /\ r.end = OnViolation(r.level)
          /\ r.msg = (IF r.end = "abort" THEN 1 ELSE 0)
          /\ r.calls = 0                              \* nothing was processed
          /\ r.res = -1

Compile(r) ==
  IF r.pre = 1 THEN r.compiled = 1 /\ r.diag = 0
  ELSE IF r.constant = 1 THEN r.compiled = 0          \* not a constant expression
  ELSE r.diag = 1 /\ r.compiled = (IF r.level % 2 = 1 THEN 0 ELSE 1)

Accept(r) == IF r.kind = "compile" THEN Compile(r) ELSE Run(r)

Init == l = 1
Next == l <= Len(Trace) /\ Accept(R) /\ l' = l + 1 /\ TLCSet(1, l + 1)
TraceSpec == Init /\ TLCSet(1, 1) /\ [][Next]_l
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
