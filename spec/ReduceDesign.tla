---------------------------- MODULE ReduceDesign ----------------------------
(* Design of the horizontal reduction: a vector of more than 3 elements is     *)
(* split into two halves of bit_floor(N/2) elements and a remainder; the       *)
(* halves are combined element-wise. Every element enters the result exactly   *)
(* once, for every width.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MaxN
VARIABLES n, work, acc
vars == <<n, work, acc>>
RECURSIVE Floor2(_)
Floor2(x) == IF x < 2 THEN 1 ELSE 2 * Floor2(x \div 2)
Init == n \in 1..MaxN /\ work = << [i \in 1..n |-> {i}] >> /\ acc = {}
Next ==
  /\ work # <<>>
  /\ LET v == Head(work)
         m == Len(v)
         h == Floor2(m \div 2)
     IN IF m > 3
        THEN /\ work' = << [i \in 1..h |-> v[i] \cup v[h + i]] >>
                        \o (IF m > 2 * h THEN << SubSeq(v, 2 * h + 1, m) >> ELSE <<>>) \o Tail(work)
             /\ acc' = acc
        ELSE work' = Tail(work) /\ acc' = acc \cup UNION {v[i] : i \in 1..m}
  /\ UNCHANGED n
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Pieces == {<<p, i>> : p \in 1..Len(work), i \in 1..n}
RECURSIVE CardSum(_)
VecCard(v) == LET RECURSIVE S(_)
                  S(i) == IF i > Len(v) THEN 0 ELSE Cardinality(v[i]) + S(i + 1)
              IN S(1)
CardSum(w) == IF w = <<>> THEN 0 ELSE VecCard(Head(w)) + CardSum(Tail(w))
\* n elements in total and none lost: hence no duplicates
ExactlyOnce == /\ CardSum(work) + Cardinality(acc) = n
               /\ (UNION {UNION {work[p][i] : i \in DOMAIN work[p]} : p \in DOMAIN work}) \cup acc = 1..n
Terminates == <>(work = <<>>)
=============================================================================
