----------------------------- MODULE ExecDesign -----------------------------
(***************************************************************************)
(* The design of the algorithms, at the grain of the implementation: an     *)
(* alignment prologue of ascending powers of two, an unrolled loop, the     *)
(* main loop, an epilogue of descending powers of two.  TLC checks that     *)
(* every behaviour is one of the contract SimdExec (refinement) and that    *)
(* every element is passed to the callable exactly once (ghost seen).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxN, MaxS, Unrolls, Pols, Algs

VARIABLES pc, j, pos, rem, bit, steady, seen

vars == <<pc, j, pos, rem, bit, steady, seen>>

Pow2 == {1, 2, 4, 8, 16, 32, 64}
BitCeil(x) == CHOOSE p \in Pow2 : p >= x /\ \A q \in Pow2 : q >= x => p <= q
HasBit(x, b) == (x \div b) % 2 = 1

\* elements are one byte, a chunk of S elements is aligned to BitCeil(S) or less
Aligns(S) == {a \in {1, 2, 4, 8, 16} : a <= BitCeil(S)}

NoJob == [alg |-> "idle", n |-> 0, S |-> 1, U |-> 1, sz |-> 1, ma |-> 1, off |-> 0, pol |-> "none"]
C == INSTANCE SimdExec WITH phase <- IF pc = "idle" THEN "idle" ELSE IF pc = "done" THEN "done" ELSE "run",
                            job <- IF pc = "idle" THEN NoJob ELSE j, steady <- steady,
                            todo <- IF pc \in {"idle", "done"} \/ pos >= j.n THEN {} ELSE {<<pos, j.n>>}

Init ==
  /\ \E a \in Algs, S \in 1..MaxS, U \in Unrolls, p \in Pols :
       \E ma \in Aligns(S) : \E off \in 0..ma-1 :
         \E n \in {m \in 0..MaxN : p = "match" => m % S = 0} :
           j = [alg |-> a, n |-> n, S |-> S, U |-> U, sz |-> 1, ma |-> ma, off |-> off, pol |-> p]
  /\ pc = "idle" /\ pos = 0 /\ rem = 0 /\ bit = 1 /\ steady = FALSE
  /\ seen = [i \in 1..j.n |-> 0]

Start ==
  /\ pc = "idle"
  /\ UNCHANGED <<j, pos, steady, bit, seen>>
  /\ LET A == C!PrologueAlign(j)
         d == (A - (j.off % A)) % A
     IN IF j.pol \in {"aligned", "auto"} /\ d > 0 /\ d <= j.n
        THEN \/ rem' = d /\ pc' = "prologue"
             \/ j.pol = "auto" /\ rem' = 0 /\ pc' = "unrolled"   \* run-time heuristic
        ELSE rem' = 0 /\ pc' = "unrolled"

See(p, w) == seen' = [i \in DOMAIN seen |-> IF i > p /\ i <= p + w THEN seen[i] + 1 ELSE seen[i]]

Prologue ==
  /\ pc = "prologue" /\ UNCHANGED j
  /\ IF rem = 0
     THEN pc' = "unrolled" /\ UNCHANGED <<pos, rem, bit, steady, seen>>
     ELSE IF HasBit(rem, bit)
     THEN /\ pos' = pos + bit /\ rem' = rem - bit /\ bit' = bit * 2 /\ See(pos, bit)
          /\ steady' = (steady \/ bit = j.S) /\ pc' = pc
     ELSE bit' = bit * 2 /\ UNCHANGED <<pc, pos, rem, steady, seen>>

Unrolled ==
  /\ pc = "unrolled" /\ UNCHANGED <<j, rem, bit>>
  /\ LET step == j.S * j.U IN
     IF j.U > 1 /\ j.alg = "for_each" /\ pos + step <= j.n
     THEN pos' = pos + step /\ See(pos, step) /\ steady' = TRUE /\ pc' = pc
     ELSE pc' = "main" /\ UNCHANGED <<pos, seen, steady>>

Main ==
  /\ pc = "main" /\ UNCHANGED j
  /\ IF pos + j.S <= j.n
     THEN pos' = pos + j.S /\ See(pos, j.S) /\ steady' = TRUE /\ UNCHANGED <<pc, rem, bit>>
     ELSE /\ pc' = "epilogue" /\ rem' = j.n - pos /\ bit' = BitCeil(j.S) \div 2
          /\ UNCHANGED <<pos, seen, steady>>

Epilogue ==
  /\ pc = "epilogue" /\ UNCHANGED j
  /\ IF rem = 0 THEN pc' = "done" /\ UNCHANGED <<pos, rem, bit, seen, steady>>
     ELSE IF HasBit(rem, bit)
     THEN pos' = pos + bit /\ rem' = rem - bit /\ bit' = bit \div 2 /\ See(pos, bit)
          /\ steady' = (steady \/ bit = j.S) /\ pc' = pc
     ELSE bit' = bit \div 2 /\ UNCHANGED <<pc, pos, rem, seen, steady>>

Next == Start \/ Prologue \/ Unrolled \/ Main \/ Epilogue
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
ExactlyOnce == pc = "done" => \A i \in DOMAIN seen : seen[i] = 1
InBounds == pos <= j.n
Terminates == <>(pc = "done")

(* every step is a step of the contract *)
Refines ==
  [][ \/ pc = "idle" /\ C!Begin(j)
      \/ /\ pos' > pos
         /\ LET d == pos' - pos IN
              \/ C!Call(1, d, pos)
              \/ j.U > 1 /\ d = j.U * j.S /\ C!Call(j.U, j.S, pos)
      \/ pos' = pos /\ pc # "idle" /\ pc' # "done"
      \/ pc' = "done" /\ C!Finish ]_vars
=============================================================================
