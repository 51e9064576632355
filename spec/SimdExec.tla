------------------------------ MODULE SimdExec ------------------------------
(***************************************************************************)
(* Contract of the data-parallel algorithms of vir-simd (for_each,         *)
(* transform, reduce, transform_reduce, count_if) under a simd execution   *)
(* policy, as a state machine over one execution of one algorithm.         *)
(*                                                                         *)
(* A job is a record with                                                  *)
(*   alg  the algorithm          n    number of elements of the range      *)
(*   S    full chunk width       U    unroll factor (1: none)              *)
(*   sz   bytes per element      ma   memory alignment of a full chunk     *)
(*   off  misalignment of the first element, in elements (mod ma \div sz)  *)
(*   pol  "none", "aligned", "auto", "match"                               *)
(*                                                                         *)
(* todo is the set of maximal intervals <<a, b>> (a <= i < b) of positions  *)
(* that the user's callable has not seen yet; steady tells whether a       *)
(* full-width chunk was passed already.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES phase, job, todo, steady

execVars == <<phase, job, todo, steady>>

NoJob == [alg |-> "idle", n |-> 0, S |-> 1, U |-> 1, sz |-> 1, ma |-> 1,
          off |-> 0, pol |-> "none"]

(* Alignment that a prologue can establish, in elements: only possible if a  *)
(* full chunk is a multiple of its own alignment.                           *)
PrologueAlign(j) ==
  IF /\ j.S > 1
     /\ j.ma > j.sz
     /\ j.ma % j.sz = 0
     /\ (j.S * j.sz) % j.ma = 0
  THEN j.ma \div j.sz ELSE 1

IsAligned(j, p) == (j.off + p) % PrologueAlign(j) = 0

(* assume_matching_size is a precondition on n *)
ValidJob(j) == j.pol = "match" => j.n % j.S = 0

ExecInit == phase = "idle" /\ job = NoJob /\ todo = {} /\ steady = FALSE

Begin(j) ==
  /\ phase = "idle"
  /\ ValidJob(j)
  /\ phase' = "run"
  /\ job' = j
  /\ todo' = IF j.n = 0 THEN {} ELSE {<<0, j.n>>}
  /\ steady' = FALSE

Ordered(j) == j.alg = "for_each"

(* number of simd arguments per call *)
ArgsOK(args, w, p) ==
  IF job.alg = "for_each" /\ job.U > 1 /\ w = job.S
  THEN \/ args = job.U
       \/ args = 1 /\ job.n - p < job.S * job.U
  ELSE args = 1

(* a full chunk is mandatory if S elements remain and no prologue is under way *)
Greedy(w, p) == job.n - p >= job.S => w = job.S

WidthOK(w, p) ==
  /\ w >= 1
  /\ w <= job.S
  /\ CASE job.pol = "match"   -> w = job.S
       [] job.pol = "none"    -> Greedy(w, p)
       [] job.pol = "aligned" -> /\ w = job.S => IsAligned(job, p) \/ job.S = 1
                                 /\ IsAligned(job, p) => Greedy(w, p)
       [] job.pol = "auto"    -> steady => Greedy(w, p)

(* One invocation of the callable with args simds of width w that hold the   *)
(* elements p, p+1, ..., p+args*w-1.                                         *)
CallCore(args, w, p) ==
  /\ phase = "run"
  /\ args >= 1
  /\ w >= 1
  /\ \E iv \in todo :
       /\ iv[1] <= p
       /\ p + args * w <= iv[2]
       /\ Ordered(job) => (p = iv[1] /\ \A o \in todo : o[1] >= p)
       /\ todo' = (todo \ {iv})
                    \cup (IF iv[1] < p THEN {<<iv[1], p>>} ELSE {})
                    \cup (IF p + args * w < iv[2] THEN {<<p + args * w, iv[2]>>} ELSE {})
  /\ steady' = (steady \/ w = job.S)
  /\ UNCHANGED <<phase, job>>

(* chunking contract *)
ChunkOK(args, w, p) == ArgsOK(args, w, p) /\ WidthOK(w, p)

Call(args, w, p) == CallCore(args, w, p) /\ ChunkOK(args, w, p)

(* The algorithm may only return when every element has been seen. *)
Finish ==
  /\ phase = "run"
  /\ todo = {}
  /\ phase' = "done"
  /\ UNCHANGED <<job, todo, steady>>

Reset ==
  /\ phase = "done"
  /\ phase' = "idle" /\ job' = NoJob /\ todo' = {} /\ steady' = FALSE

-----------------------------------------------------------------------------
TypeOK ==
  /\ phase \in {"idle", "run", "done"}
  /\ \A iv \in todo : 0 <= iv[1] /\ iv[1] < iv[2] /\ iv[2] <= job.n
  /\ \A a, b \in todo : a # b => (a[2] < b[1] \/ b[2] < a[1])

DoneIsComplete == phase = "done" => todo = {}

(* ------------------------- data ------------------------------------------ *)
\* deterministic test data of the reductions, recomputed here
D(s, i) == LET k == (i + 5 * s) % 251 IN ((k * k * k) % 251) + 1
=============================================================================
