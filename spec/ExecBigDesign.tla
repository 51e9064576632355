--------------------------- MODULE ExecBigDesign ----------------------------
(***************************************************************************)
(* ExecBig agrees with SimdExec: with a small Base TLC enumerates all jobs     *)
(* and all runs (in any order), and checks in lock-step that                   *)
(*  - the run is enabled exactly if its m calls are (core and chunk rules),     *)
(*  - todo and steady are the same afterwards,                                  *)
(*  - the closed forms for sums and counts equal the folds.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Base, MaxN, MaxS

VARIABLES phase, job, todo, steady, stodo, ssteady

vars == <<phase, job, todo, steady, stodo, ssteady>>
G == INSTANCE ExecBig

Val(x) == x[1] * Base + x[2]
Pair(v) == <<v \div Base, v % Base>>
Small(j) == [j EXCEPT !.n = Val(j.n)]
\* the contract for ordinary numbers, on the same job
SE(t, s) == INSTANCE SimdExec WITH phase <- phase, job <- Small(job), todo <- t, steady <- s

\* todo after one call of SimdExec, or {<<-1, -1>>} if the call is not allowed
Step(t, args, w, p) ==
  LET ok == {iv \in t : iv[1] <= p /\ p + args * w <= iv[2]
                        /\ (job.alg = "for_each" => p = iv[1] /\ \A o \in t : o[1] >= p)}
  IN IF ok = {} THEN {<<-1, -1>>}
     ELSE LET iv == CHOOSE x \in ok : TRUE
          IN (t \ {iv}) \cup (IF iv[1] < p THEN {<<iv[1], p>>} ELSE {})
                        \cup (IF p + args * w < iv[2] THEN {<<p + args * w, iv[2]>>} ELSE {})
Steps(args, w, p, m) ==
  FoldLeft(LAMBDA t, i : IF t = {<<-1, -1>>} THEN t ELSE Step(t, args, w, p + (i - 1) * args * w), stodo, [i \in 1..m |-> i])
\* chunk rules for all m calls (steady becomes true after a full-width call)
ChunksOK(args, w, p, m) ==
  \A i \in 0..m-1 : SE(stodo, ssteady \/ (i > 0 /\ w = job.S))!ChunkOK(args, w, p + i * args * w)

Init ==
  /\ phase = "run" /\ steady = FALSE /\ ssteady = FALSE
  /\ \E a \in {"for_each", "transform"}, n \in 0..MaxN, S \in 1..MaxS, U \in 1..2, p \in {"none", "aligned", "auto", "match"} :
       \E ma \in {1, 2, 4} : \E off \in 0..ma-1 :
         /\ p = "match" => n % S = 0
         /\ job = [alg |-> a, n |-> Pair(n), S |-> S, U |-> U, sz |-> 1, ma |-> ma, off |-> off, pol |-> p]
  /\ todo = IF Val(job.n) = 0 THEN {} ELSE {<<G!Zero, job.n>>}
  /\ stodo = IF Val(job.n) = 0 THEN {} ELSE {<<0, Val(job.n)>>}

Params == {q \in (1..2) \X (1..MaxS) \X (0..MaxN) \X (1..3) : q[4] > 1 => q[2] = job.S}

Next ==
  \E q \in Params :
    /\ Steps(q[1], q[2], q[3], q[4]) # {<<-1, -1>>}
    /\ ChunksOK(q[1], q[2], q[3], q[4])
    /\ G!RunCore(q[1], q[2], Pair(q[3]), q[4])
    /\ stodo' = Steps(q[1], q[2], q[3], q[4])
    /\ ssteady' = (ssteady \/ q[2] = job.S)

Spec == Init /\ [][Next]_vars

SameState == stodo = {<<Val(iv[1]), Val(iv[2])>> : iv \in todo} /\ steady = ssteady
SameRules ==
  \A q \in Params :
    /\ (ENABLED G!RunCore(q[1], q[2], Pair(q[3]), q[4])) <=> Steps(q[1], q[2], q[3], q[4]) # {<<-1, -1>>}
    /\ Steps(q[1], q[2], q[3], q[4]) # {<<-1, -1>>} =>
         (G!RunOK(q[1], q[2], Pair(q[3]), q[4]) <=> ChunksOK(q[1], q[2], q[3], q[4]))
TypeOK == G!TypeOK

(* ------------------------ closed forms -------------------------------------- *)
FoldSum(n, per) == FoldLeft(LAMBDA acc, i : acc + ((i - 1) % per), 0, [i \in 1..n |-> i])
FoldCount(n, per, arg) == FoldLeft(LAMBDA acc, i : IF (i - 1) % per > arg THEN acc + 1 ELSE acc, 0, [i \in 1..n |-> i])
ASSUME \A n \in 0..40, per \in 1..7, m \in {0, 5, 16} :
         G!Sum(Pair(n), per, 3, m) = (IF m = 0 THEN FoldSum(n, per) + 3 ELSE (FoldSum(n, per) + 3) % m)
ASSUME \A n \in 0..40, per \in 2..7 : \A arg \in 0..per-1 : G!CountAbove(Pair(n), per, arg) = FoldCount(n, per, arg)
ASSUME \A x, d \in 0..40 : Val(G!Plus(Pair(x), d)) = x + d /\ (G!Le(Pair(x), Pair(d)) <=> x <= d)
=============================================================================
