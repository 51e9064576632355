------------------------------- MODULE Barrier ------------------------------
(***************************************************************************)
(* Benchmarking barriers.  vals are the values of the arguments; known: may   *)
(* the optimizer use them (constant folding); pending: number of operations     *)
(* on the arguments whose results nobody has looked at (they may be elided);     *)
(* done: operations that certainly have been performed.                           *)
(* fake_modify keeps every value, ends all knowledge and counts as a look at the   *)
(* arguments; fake_read keeps values and knowledge and is a look.                  *)
(* An operation on known values may be folded: it is then never performed.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES vals, known, pending, done
barrierVars == <<vals, known, pending, done>>

BarrierInit == vals = <<>> /\ known = FALSE /\ pending = 0 /\ done = 0
Compute(v, k) == vals' = v /\ known' = k /\ UNCHANGED <<pending, done>>
\* an operation on the arguments
Operate == UNCHANGED <<vals, known, done>> /\ pending' = IF known THEN pending ELSE pending + 1
Look == pending' = 0 /\ done' = done + pending
FakeModify == vals' = vals /\ known' = FALSE /\ Look
FakeRead == UNCHANGED <<vals, known>> /\ Look
=============================================================================
