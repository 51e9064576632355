---------------------------- MODULE ExecBigTrace ----------------------------
(* Validates recorded executions over long ranges (runs of calls) against ExecBig. *)
EXTENDS ExecBig, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == IOEnv.CHUNKS = "1"

VARIABLES l, k
tvars == <<execVars, l, k>>
R == Trace[l]
JobOf(r) == [alg |-> r.alg, n |-> r.n, S |-> r.S, U |-> r.U, sz |-> r.sz, ma |-> r.ma, off |-> r.off, pol |-> r.pol]

TraceInit == ExecInit /\ l = 1 /\ k = 0
TraceBegin == l <= Len(Trace) /\ phase = "idle" /\ Begin(JobOf(R)) /\ k' = 1 /\ l' = l
TraceRun ==
  /\ l <= Len(Trace) /\ phase = "run" /\ k <= Len(R.calls)
  /\ LET c == R.calls[k] IN      \* args, width, number of calls, position
       /\ RunCore(c[1], c[2], <<c[4], c[5]>>, c[3])
       /\ Chunks => RunOK(c[1], c[2], <<c[4], c[5]>>, c[3])
  /\ k' = k + 1 /\ l' = l

Uniform(rle, n, d) == IF n = 0 THEN rle = <<>> ELSE rle = << <<d, n>> >>
ResultOK(r) ==
  CASE r.alg = "for_each"  -> Uniform(r.delta, r.win, IF r.wb = 1 THEN 1 ELSE 0)
    [] r.alg = "transform" -> Uniform(r.delta, r.win, 1) /\ r.ret = r.n /\ r.inchg = 0
    [] r.alg = "reduce"    -> r.ret = Sum(r.n, r.per, r.init, r.mod) /\ r.inchg = 0
    [] r.alg = "count_if"  -> r.ret = CountAbove(r.n, r.per, r.arg) /\ r.inchg = 0

TraceFinish ==
  /\ l <= Len(Trace) /\ phase = "run" /\ k = Len(R.calls) + 1
  /\ R.fault = 0 /\ R.oob = 0
  /\ R.logged = 1 => Finish
  /\ R.logged = 0 => phase' = "done" /\ todo' = {} /\ UNCHANGED <<job, steady>>
  /\ ResultOK(R)
  /\ l' = l /\ k' = k
TraceNextRecord == phase = "done" /\ Reset /\ l' = l + 1 /\ k' = 0 /\ TLCSet(1, l + 1)
TraceNext == TraceBegin \/ TraceRun \/ TraceFinish \/ TraceNextRecord
TraceSpec == TraceInit /\ TLCSet(1, 1) /\ [][TraceNext]_tvars
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
