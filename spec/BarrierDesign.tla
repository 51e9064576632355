--------------------------- MODULE BarrierDesign ----------------------------
(* Every program of barriers and operations: what a benchmark relies on. *)
EXTENDS Barrier
CONSTANT MaxOps
VARIABLES ops,      \* operations executed by the program text so far
          fresh     \* TRUE: a fake_modify came after the last Compute
designVars == <<barrierVars, ops, fresh>>
DInit == BarrierInit /\ ops = 0 /\ fresh = TRUE
DCompute == \E k \in BOOLEAN : Compute(<<ops>>, k) /\ fresh' = ~k /\ UNCHANGED ops
DOperate == ops < MaxOps /\ Operate /\ ops' = (IF fresh THEN ops + 1 ELSE ops) /\ UNCHANGED fresh
DModify == FakeModify /\ fresh' = TRUE /\ UNCHANGED ops
DRead == FakeRead /\ UNCHANGED <<ops, fresh>>
DSpec == DInit /\ [][DCompute \/ DOperate \/ DModify \/ DRead]_designVars
\* every operation on unknown values is performed or still unobserved, none twice, none is forgotten
Accounted == done + pending = ops
Fresh == fresh <=> ~known
KeepsValues == [][(DModify \/ DRead) => vals' = vals]_designVars
LookPerforms == [][(DModify \/ DRead) => done' = ops /\ pending' = 0]_designVars
=============================================================================
