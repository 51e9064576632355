------------------------------- MODULE ExecBig -------------------------------
(***************************************************************************)
(* The contract SimdExec for long ranges.  Positions and lengths are numbers *)
(* <<hi, lo>> (hi * Base + lo, lo < Base), and a run of m equal invocations   *)
(* of the callable on consecutive chunks is one action.  ExecBigDesign checks *)
(* that a run is the same as its m calls of SimdExec.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Base

VARIABLES phase, job, todo, steady

execVars == <<phase, job, todo, steady>>

(* ------------------------------ numbers ---------------------------------- *)
Zero == <<0, 0>>
Plus(x, d) == <<x[1] + ((x[2] + d) \div Base), (x[2] + d) % Base>>     \* d an ordinary number
Le(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Lt(x, y) == Le(x, y) /\ x # y
Mod(x, d) == (x[1] * (Base % d) + x[2]) % d                              \* small d
Div(x, d) == x[1] * (Base \div d) + ((x[1] * (Base % d) + x[2]) \div d)    \* if the quotient is small

(* ------------------------------ contract ---------------------------------- *)
NoJob == [alg |-> "idle", n |-> Zero, S |-> 1, U |-> 1, sz |-> 1, ma |-> 1, off |-> 0, pol |-> "none"]

PrologueAlign(j) ==
  IF /\ j.S > 1
     /\ j.ma > j.sz
     /\ j.ma % j.sz = 0
     /\ (j.S * j.sz) % j.ma = 0
  THEN j.ma \div j.sz ELSE 1

IsAligned(j, p) == (j.off + Mod(p, PrologueAlign(j))) % PrologueAlign(j) = 0
Remain(p, d) == Le(Plus(p, d), job.n)             \* at least d elements from p on

ExecInit == phase = "idle" /\ job = NoJob /\ todo = {} /\ steady = FALSE

Begin(j) ==
  /\ phase = "idle"
  /\ j.pol = "match" => Mod(j.n, j.S) = 0
  /\ phase' = "run"
  /\ job' = j
  /\ todo' = IF j.n = Zero THEN {} ELSE {<<Zero, j.n>>}
  /\ steady' = FALSE

\* m invocations with args simds of width w each, starting at position p
RunCore(args, w, p, m) ==
  /\ phase = "run"
  /\ args >= 1 /\ w >= 1 /\ m >= 1
  /\ LET e == Plus(p, args * w * m) IN
     \E iv \in todo :
       /\ Le(iv[1], p)
       /\ Le(e, iv[2])
       /\ job.alg = "for_each" => (p = iv[1] /\ \A o \in todo : Le(p, o[1]))
       /\ todo' = (todo \ {iv})
                    \cup (IF Lt(iv[1], p) THEN {<<iv[1], p>>} ELSE {})
                    \cup (IF Lt(e, iv[2]) THEN {<<e, iv[2]>>} ELSE {})
  /\ steady' = (steady \/ w = job.S)
  /\ UNCHANGED <<phase, job>>

\* the chunking contract for the run (only full-width calls form runs)
Greedy(w, p) == Remain(p, job.S) => w = job.S
RunOK(args, w, p, m) ==
  /\ w <= job.S
  /\ m > 1 => w = job.S
  /\ IF job.alg = "for_each" /\ job.U > 1 /\ w = job.S
     THEN args = job.U \/ (args = 1 /\ ~Remain(p, job.S * job.U))
     ELSE args = 1
  /\ CASE job.pol = "match"   -> w = job.S
       [] job.pol = "none"    -> Greedy(w, p)
       [] job.pol = "aligned" -> /\ w = job.S => IsAligned(job, p) \/ job.S = 1
                                 /\ IsAligned(job, p) => Greedy(w, p)
       [] job.pol = "auto"    -> steady => Greedy(w, p)

Finish ==
  /\ phase = "run"
  /\ todo = {}
  /\ phase' = "done"
  /\ UNCHANGED <<job, todo, steady>>

Reset ==
  /\ phase = "done"
  /\ phase' = "idle" /\ job' = NoJob /\ todo' = {} /\ steady' = FALSE

TypeOK ==
  /\ phase \in {"idle", "run", "done"}
  /\ \A iv \in todo : Lt(iv[1], iv[2]) /\ Le(iv[2], job.n)
  /\ \A a, b \in todo : a # b => (Lt(a[2], b[1]) \/ Lt(b[2], a[1]))
DoneIsComplete == phase = "done" => todo = {}

(* ------------------------- results ---------------------------------------- *)
\* the data is periodic: element i contributes i % per
Sum(n, per, init, mod) ==
  LET q == Div(n, per)
      r == Mod(n, per)
      qq == IF mod = 0 THEN q ELSE q % mod
      x == qq * ((per * (per - 1)) \div 2)
      y == (IF mod = 0 THEN x ELSE x % mod) + ((r * (r - 1)) \div 2) + init
  IN IF mod = 0 THEN y ELSE y % mod
\* number of elements i with i % per > arg
CountAbove(n, per, arg) == Div(n, per) * (per - 1 - arg) + (IF Mod(n, per) > arg + 1 THEN Mod(n, per) - arg - 1 ELSE 0)
=============================================================================
