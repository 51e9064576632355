----------------------------- MODULE LanesDesign ----------------------------
(* Exhaustive check of the register machine on two lanes of tiny elements:     *)
(* from every state, every instruction satisfies the laws a user relies on     *)
(* (frame conditions, locality of lanes, where = blend of the unmasked op,      *)
(* De Morgan, load/store round trip).                                          *)
EXTENDS Lanes

VARIABLES n, ins
vars == <<lanesVars, n, ins>>

Tys == {[k |-> "u", bits |-> 2], [k |-> "i", bits |-> 2]}
Vals == {<<i>> : i \in 0..3}
V2 == [1..2 -> Vals]
M2 == [1..2 -> {0, 1}]

Fs == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}
Cs == {"==", "!=", "<", "<=", ">", ">="}

Instr ==
  [op : {"bin"}, f : Fs, lhs : {"a", "s"}, rhs : {"b"}, s : Vals]
  \cup [op : {"casg", "wcasg"}, f : Fs, rhs : {"b", "a"}]
  \cup [op : {"cmp"}, f : Cs, lhs : {"a"}, rhs : {"b"}]
  \cup [op : {"un"}, f : {"neg", "bnot", "lnot", "++x", "x++", "--x", "x--"}]
  \cup [op : {"wun"}, f : {"neg", "++x", "x++", "--x", "x--"}]
  \cup [op : {"wasg"}, rhs : {"b"}]
  \cup [op : {"mbin"}, f : {"&&", "||", "&", "|", "^", "==", "!="}]
  \cup [op : {"mred"}, f : {"all_of", "any_of", "none_of", "some_of", "popcount"}]
  \cup [op : {"load", "store", "wload", "wstore"}, o : {0, 1}, f : {"const", ""}]
  \cup [op : {"mm"}, f : {"min", "max", "minmax"}]
  \cup [op : {"wr"}, i : {0, 1}, s : Vals]

Init == /\ ty \in Tys /\ mty = ty /\ N = 2
        /\ a \in V2 /\ b \in V2 /\ c = <<<<3>>, <<2>>>>
        /\ k \in M2 /\ k2 \in {<<0, 1>>, <<1, 1>>} /\ k3 = <<0, 0>>
        /\ mem = << <<0>>, <<3>>, <<1>> >> /\ bmem = <<>> /\ ret = <<>>
        /\ n = 0 /\ ins = [op |-> "none"]

IntOf(x) == NVal(ty, x)
DefinedIn(I, i) == CASE I.f \in {"/", "%"} -> Rhs(I, i) # <<0>>
                     [] I.f \in {"<<", ">>"} -> IntOf(Rhs(I, i)) >= 0
                     [] OTHER -> TRUE
Defined(I) == CASE I.op \in {"bin", "casg"} -> \A i \in Lane : DefinedIn(I, i)
                [] I.op = "wcasg" -> \A i \in Lane : Sel(i) => DefinedIn(I, i)
                [] OTHER -> TRUE

Next == /\ n = 0 /\ n' = 1
        /\ \E I \in Instr : ins' = I /\ Defined(I) /\ Exec(I)
Spec == Init /\ [][Next]_vars

\* element of a only depends on the elements of the same lane
LaneLocal == [][ins'.op = "casg" => \A i \in Lane : a'[i] = SBin(ins', ins'.f, a[i], Rhs(ins', i), i)]_vars
\* a where-expression is the blend of the unmasked operation
WhereIsBlend == [][ins'.op \in {"wcasg", "wun", "wasg", "wload"} =>
                     /\ \A i \in Lane : k[i] = 0 => a'[i] = a[i]
                     /\ b' = b /\ mem' = mem /\ k' = k]_vars
StoreLoad == [][ins'.op = "store" => /\ \A i \in Lane : mem'[ins'.o + i] = a[i]
                                     /\ \A j \in DOMAIN mem : (j <= ins'.o \/ j > ins'.o + 2) => mem'[j] = mem[j]
                                     /\ Len(mem') = Len(mem)]_vars
WStoreFrame == [][ins'.op = "wstore" => \A j \in DOMAIN mem : mem'[j] # mem[j] =>
                     (j - ins'.o \in Lane /\ k[j - ins'.o] = 1)]_vars
DivMod == [][(ins'.op = "bin" /\ ins'.f = "/" /\ ins'.lhs = "a") =>
                \A i \in Lane : (a[i][1] - (IntOf(c'[i]) * IntOf(b[i])) - IntOf(NBin("%", ty, a[i], b[i]))) % 4 = 0]_vars
MaskLaws == [][ins'.op = "mred" => CASE ins'.f = "none_of" -> (ret'[1] = 1) = (\A i \in Lane : k[i] = 0)
                                     [] ins'.f = "some_of" -> (ret'[1] = 1) = (\E i, j \in Lane : k[i] # k[j])
                                     [] ins'.f = "popcount" -> ret'[1] = k[1] + k[2]
                                     [] OTHER -> TRUE]_vars
TypesKept == \A i \in 1..N : a[i] \in Vals /\ b[i] \in Vals /\ c[i] \in Vals /\ k[i] \in {0, 1} /\ k3[i] \in {0, 1}
=============================================================================
