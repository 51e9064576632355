----------------------------- MODULE ExecTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the algorithms against SimdExec.        *)
(* Every record is one execution; its calls are replayed one by one as      *)
(* Call actions, the observable result is checked when the execution ends.  *)
(***************************************************************************)
EXTENDS SimdExec, TLC, Json, IOUtils, SequencesExt, Bitwise

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == IOEnv.CHUNKS = "1"      \* also check the chunking contract (C05)

VARIABLES l, k
tvars == <<execVars, l, k>>

R == Trace[l]

JobOf(r) == [alg |-> r.alg, n |-> r.n, S |-> r.S, U |-> r.U, sz |-> r.sz, ma |-> r.ma,
             off |-> r.off, pol |-> r.pol]

TraceInit == ExecInit /\ l = 1 /\ k = 0

TraceBegin == /\ l <= Len(Trace) /\ phase = "idle"
              /\ Begin(JobOf(R))
              /\ k' = 1 /\ l' = l

TraceCall ==
  /\ l <= Len(Trace) /\ phase = "run" /\ k <= Len(R.calls)
  /\ LET c == R.calls[k] IN
       /\ \A i \in 3..Len(c) : c[i] = c[3]      \* all inputs at the same position
       /\ CallCore(c[1], c[2], c[3])
       /\ Chunks => ChunkOK(c[1], c[2], c[3])
  /\ k' = k + 1 /\ l' = l

(* ---- results -------------------------------------------------------------- *)
\* run-length encoded deltas: all n elements changed by d
Uniform(rle, n, d) == IF n = 0 THEN rle = <<>> ELSE rle = << <<d, n>> >>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* transformed element i of a reduction (unsigned types narrower than int wrap)
Elem(r, i) ==
  LET x == CASE r.tf = "id"   -> D(r.seed, i)
             [] r.tf = "mul"  -> D(r.seed, i) * D(r.seed + 1, i)
             [] r.tf = "add2" -> D(r.seed, i) + 2
             [] r.tf = "suba" -> 3 * D(r.seed, i) - D(r.seed + 1, i) + 251
  IN IF r.mod = 0 THEN x ELSE x % r.mod
ROp(r, a, b) == CASE r.rop = "plus" -> a + b
                  [] r.rop = "min"  -> Min2(a, b)
                  [] r.rop = "max"  -> Max2(a, b)
                  [] r.rop = "xor"  -> a ^^ b
Reduced(r) ==
  LET x == FoldLeftDomain(LAMBDA acc, i : ROp(r, acc, Elem(r, i - 1)), r.init, [i \in 1..r.n |-> 0])
  IN IF r.mod = 0 THEN x ELSE x % r.mod

Pred(r, i) == CASE r.pred = "gt"   -> D(r.seed, i) > r.arg
                [] r.pred = "lt"   -> D(r.seed, i) < r.arg
                [] r.pred = "all"  -> TRUE
                [] r.pred = "none" -> FALSE
Counted(r) == FoldLeftDomain(LAMBDA acc, i : IF Pred(r, i - 1) THEN acc + 1 ELSE acc, 0, [i \in 1..r.n |-> 0])

ResultOK(r) ==
  CASE r.alg = "for_each"  -> Uniform(r.delta, r.n, IF r.wb = 1 THEN 1 ELSE 0)
    [] r.alg = "transform" -> /\ Uniform(r.delta, r.n, 1)         \* out[i] = i + 1
                              /\ r.ret = r.n                      \* returned iterator
                              /\ r.inchg = 0                      \* inputs untouched
    [] r.alg = "reduce"    -> r.ret = Reduced(r) /\ r.inchg = 0
    [] r.alg = "count_if"  -> r.ret = Counted(r) /\ r.inchg = 0

(* overloads without a user-provided transformation have no callable to record: only the result *)
Logged(r) == IF "logged" \in DOMAIN r THEN r.logged = 1 ELSE TRUE

TraceFinish ==
  /\ l <= Len(Trace) /\ phase = "run" /\ k = Len(R.calls) + 1
  /\ R.fault = 0                                \* no trap, no access to a guard page
  /\ R.oob = 0                                  \* no byte around the ranges changed
  /\ Logged(R) => Finish
  /\ ~Logged(R) => phase' = "done" /\ todo' = {} /\ UNCHANGED <<job, steady>>
  /\ ResultOK(R)
  /\ l' = l /\ k' = k

TraceNextRecord == phase = "done" /\ Reset /\ l' = l + 1 /\ k' = 0 /\ TLCSet(1, l + 1)

TraceNext == TraceBegin \/ TraceCall \/ TraceFinish \/ TraceNextRecord
TraceSpec == TraceInit /\ TLCSet(1, 1) /\ [][TraceNext]_tvars

Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
