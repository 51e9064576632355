---------------------------- MODULE BarrierTrace ----------------------------
EXTENDS Barrier, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pc, round
vars == <<barrierVars, l, pc, round>>
R == Trace[l]
More == l <= Len(Trace)
Next(r) == l' = l + 1 /\ TLCSet(1, l + 1)

TraceInit == BarrierInit /\ l = 1 /\ pc = "new" /\ round = 0
\* one barrier
Load == /\ More /\ pc = "new" /\ R.op \in {"modify", "read"}
        /\ Compute(R.before, TRUE) /\ pc' = "computed" /\ UNCHANGED <<l, round>>
Act == /\ More /\ pc = "computed"
       /\ CASE R.op = "modify" -> FakeModify
            [] R.op = "read" -> FakeRead
       /\ vals' = R.after                       \* observed values
       /\ ~known' => R.known = 0                \* nothing about them was known to the optimizer
       /\ pc' = "new" /\ round' = 0 /\ Next(R)
\* times x (modify, operation, look); performed = number of operations observed
Begin == /\ More /\ pc = "new" /\ R.op = "work"
         /\ vals' = <<1, 3>> /\ known' = TRUE /\ pending' = 0 /\ done' = 0
         /\ pc' = "modify" /\ round' = 0 /\ UNCHANGED l
Modify == pc = "modify" /\ FakeModify /\ pc' = "operate" /\ UNCHANGED <<l, round>>
DoOperate == pc = "operate" /\ Operate /\ pc' = "look" /\ UNCHANGED <<l, round>>
DoLook == /\ pc = "look" /\ FakeRead /\ round' = round + 1
          /\ pc' = IF round' = R.times THEN "end" ELSE "modify"
          /\ UNCHANGED l
End == pc = "end" /\ R.performed = done /\ UNCHANGED <<barrierVars, round>> /\ pc' = "new" /\ Next(R)
TraceSpec == TraceInit /\ TLCSet(1, 1) /\ [][Load \/ Act \/ Begin \/ Modify \/ DoOperate \/ DoLook \/ End]_vars
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
