-------------------------- MODULE StructSizeDesign --------------------------
(***************************************************************************)
(* The search of struct_size: T can be brace-initialised from n values       *)
(* exactly for n in Least..Members (Least > 0 if the first members have no     *)
(* default initialisation).  The recursion bisects [lo, hi] from probe n.      *)
(* Every probe lies in the interval, the interval shrinks with every step,     *)
(* and the result is the number of members.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxMembers, MaxHi
VARIABLES least, members, hi0,     \* the aggregate
          stack,                   \* frames of the recursion, top last
          ret                      \* value returned by the last finished frame, -1: none
vars == <<least, members, hi0, stack, ret>>

Valid(n) == least <= n /\ n <= members
Frame(lo, hi, n, pc) == [lo |-> lo, hi |-> hi, n |-> n, pc |-> pc]
LeftN(f) == f.lo + (f.n - f.lo) \div 2
RightN(f) == f.n + (f.hi - f.n + 1) \div 2
Left(f) == Frame(f.lo, f.n - 1, LeftN(f), "probe")
Right(f) == Frame(f.n + 1, f.hi, RightN(f), "probe")

Init ==
  /\ members \in 1..MaxMembers
  /\ least \in 0..members
  /\ hi0 \in {h \in 8..MaxHi : h >= members}
  /\ stack = << Frame(0, hi0, 8, "probe") >>
  /\ ret = -1

Top == stack[Len(stack)]
Replace(f) == [stack EXCEPT ![Len(stack)] = f]
Goto(pc, f) == Append(Replace([Top EXCEPT !.pc = pc]), f)
Pop == SubSeq(stack, 1, Len(stack) - 1)

Probe ==
  /\ stack # <<>> /\ Top.pc = "probe"
  /\ CASE Valid(Top.n) /\ Top.n = Top.hi -> stack' = Pop /\ ret' = Top.n
       [] Valid(Top.n) /\ Top.n # Top.hi -> stack' = Goto("larger", Right(Top)) /\ ret' = -1
       [] ~Valid(Top.n) /\ Top.n = Top.lo /\ Top.n = Top.hi -> stack' = Pop /\ ret' = 0
       [] ~Valid(Top.n) /\ Top.n = Top.lo /\ Top.n # Top.hi -> stack' = Goto("tail", Right(Top)) /\ ret' = -1
       [] OTHER -> stack' = Goto("left", Left(Top)) /\ ret' = -1
  /\ UNCHANGED <<least, members, hi0>>
Resume ==
  /\ stack # <<>> /\ ret # -1
  /\ CASE Top.pc = "larger" -> stack' = Pop /\ ret' = (IF ret = 0 THEN Top.n ELSE ret)
       [] Top.pc = "tail" -> stack' = Pop /\ ret' = ret
       [] Top.pc = "left" /\ ret > 0 -> stack' = Pop /\ ret' = ret
       [] Top.pc = "left" /\ ret = 0 /\ Top.n = Top.hi -> stack' = Pop /\ ret' = 0
       [] Top.pc = "left" /\ ret = 0 /\ Top.n # Top.hi -> stack' = Goto("tail", Right(Top)) /\ ret' = -1
  /\ UNCHANGED <<least, members, hi0>>
Next == IF stack # <<>> /\ Top.pc = "probe" THEN Probe ELSE Resume
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InRange == \A k \in DOMAIN stack : LET f == stack[k] IN f.lo <= f.n /\ f.n <= f.hi
Shrinks == \A k \in 2..Len(stack) : stack[k].hi - stack[k].lo < stack[k - 1].hi - stack[k - 1].lo
Result == stack = <<>> => ret = members
Terminates == <>(stack = <<>>)
=============================================================================
