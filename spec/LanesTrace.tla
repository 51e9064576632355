----------------------------- MODULE LanesTrace -----------------------------
(* Validates recorded histories of simd/simd_mask objects against Lanes. A     *)
(* record is one instruction with its operands and the contents of every       *)
(* register and memory window that differs from what the record before left.   *)
EXTENDS Lanes, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<lanesVars, l>>
R == Trace[l]
Env == {"boot", "set"}

TraceInit == LanesInit /\ l = 1

\* observed contents of register n after the instruction
Obs(n, old) == IF n \in DOMAIN R.post THEN R.post[n] ELSE old

TraceStep ==
  /\ l <= Len(Trace)
  /\ R.fault = 0
  /\ Exec(R)
  /\ R.op \notin Env =>
       /\ a' = Obs("a", a) /\ b' = Obs("b", b) /\ c' = Obs("c", c)
       /\ k' = Obs("k", k) /\ k2' = Obs("k2", k2) /\ k3' = Obs("k3", k3)
       /\ mem' = Obs("mem", mem) /\ bmem' = Obs("bmem", bmem)
       /\ ret' = Obs("ret", <<>>)
       /\ R.oob = 0
  /\ l' = l + 1
  /\ TLCSet(1, l + 1)

TraceNext == TraceStep
TraceSpec == TraceInit /\ TLCSet(1, 1) /\ [][TraceNext]_tvars
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
