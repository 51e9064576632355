-------------------------------- MODULE Lanes -------------------------------
(***************************************************************************)
(* A register machine of simd objects.  State: three data registers a, b, c *)
(* of N elements of type ty, three mask registers k, k2, k3, a memory       *)
(* window mem (elements of type mty) and a bool memory window bmem.          *)
(* Every operation of simd, simd_mask and where-expressions is an action    *)
(* that says exactly which elements change, and to what.                    *)
(*                                                                         *)
(* Scalar float arithmetic and conversions from/to float are uninterpreted: *)
(* an instruction carries the table ref of the scalar results of its lanes   *)
(* and the machine lifts it.  Integers, comparisons, signs, min/max, masks   *)
(* and all data movement are interpreted.                                   *)
(***************************************************************************)
EXTENDS Scalar, FiniteSets

VARIABLES ty, N, a, b, c, k, k2, k3, mty, mem, bmem, ret

dataVars == <<a, b, c>>
maskVars == <<k, k2, k3>>
lanesVars == <<ty, N, a, b, c, k, k2, k3, mty, mem, bmem, ret>>

Lane == 1..N
NoTy == [k |-> "u", bits |-> 8]

LanesInit == /\ ty = NoTy /\ N = 0 /\ mty = NoTy
             /\ a = <<>> /\ b = <<>> /\ c = <<>>
             /\ k = <<>> /\ k2 = <<>> /\ k3 = <<>>
             /\ mem = <<>> /\ bmem = <<>> /\ ret = <<>>

(* ------------------------- scalar results ---------------------------------- *)
\* f(x, y) in lane i of instruction I
SBin(I, f, x, y, i) ==
  CASE ty.k = "f" -> I.ref[i]
    [] f = "<<" -> Shl(ty, x, y[1])
    [] f = ">>" -> Shr(ty, x, y[1])
    [] IsNarrow(ty) -> NBin(f, ty, x, y)
    [] OTHER -> WBin(f, ty, x, y, IF f \in {"/", "%"} THEN I.ref[i] ELSE x)
One == FromInt(ty, 1)
SInc(I, x, i) == IF ty.k = "f" THEN I.ref[i] ELSE IF IsNarrow(ty) THEN NBin("+", ty, x, One) ELSE LAdd(x, One)
SDec(I, x, i) == IF ty.k = "f" THEN I.ref[i] ELSE IF IsNarrow(ty) THEN NBin("-", ty, x, One) ELSE LSub(x, One)
\* conversion of memory/source element x of type from to type to
SConv(I, from, to, x, i) == IF from = to THEN x
                            ELSE IF from.k # "f" /\ to.k # "f" THEN IConv(from, to, x)
                            ELSE I.ref[i]

\* operand of a binary operation: register b, register a (aliased) or a broadcast scalar
Rhs(I, i) == CASE I.rhs = "b" -> b[i] [] I.rhs = "a" -> a[i] [] I.rhs = "s" -> I.s
Lhs(I, i) == IF I.lhs = "s" THEN I.s ELSE a[i]

BoolF(f, x, y) == CASE f = "&" \/ f = "&&" -> x = 1 /\ y = 1
                    [] f = "|" \/ f = "||" -> x = 1 \/ y = 1
                    [] f = "^" \/ f = "!=" -> x # y
                    [] f = "==" -> x = y
Bit(p) == IF p THEN 1 ELSE 0

(* ------------------------- environment -------------------------------------- *)
\* a new machine with arbitrary contents
Boot(I) == /\ ty' = I.ty /\ N' = I.N /\ mty' = I.mty
           /\ a' = I.a /\ b' = I.b /\ c' = I.c
           /\ k' = I.k /\ k2' = I.k2 /\ k3' = I.k3
           /\ mem' = I.mem /\ bmem' = I.bmem /\ ret' = <<>>
\* the test environment overwrites registers/memory
Set(I) == /\ a' = IF "a" \in DOMAIN I THEN I.a ELSE a
          /\ b' = IF "b" \in DOMAIN I THEN I.b ELSE b
          /\ c' = IF "c" \in DOMAIN I THEN I.c ELSE c
          /\ k' = IF "k" \in DOMAIN I THEN I.k ELSE k
          /\ k2' = IF "k2" \in DOMAIN I THEN I.k2 ELSE k2
          /\ k3' = IF "k3" \in DOMAIN I THEN I.k3 ELSE k3
          /\ mem' = IF "mem" \in DOMAIN I THEN I.mem ELSE mem
          /\ mty' = IF "mty" \in DOMAIN I THEN I.mty ELSE mty
          /\ bmem' = IF "bmem" \in DOMAIN I THEN I.bmem ELSE bmem
          /\ ret' = <<>>
          /\ UNCHANGED <<ty, N>>

Frame == UNCHANGED <<ty, N, mty>>
KeepA == UNCHANGED a
KeepMem == UNCHANGED <<mem, bmem>>

(* ------------------------- data instructions -------------------------------- *)
\* c = lhs f rhs
Binary(I) == /\ c' = [i \in Lane |-> SBin(I, I.f, Lhs(I, i), Rhs(I, i), i)]
             /\ ret' = <<>> /\ UNCHANGED <<a, b, maskVars>> /\ KeepMem /\ Frame
\* a f= rhs; returns a reference to a
Compound(I) == /\ a' = [i \in Lane |-> SBin(I, I.f, a[i], Rhs(I, i), i)]
               /\ ret' = <<1>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
\* k = lhs f rhs
Compare(I) == /\ k' = [i \in Lane |-> Bit(Cmp(I.f, ty, Lhs(I, i), Rhs(I, i)))]
              /\ ret' = <<>> /\ UNCHANGED <<dataVars, k2, k3>> /\ KeepMem /\ Frame
Unary(I) ==
  /\ CASE I.f = "neg"  -> c' = [i \in Lane |-> Neg(ty, a[i])] /\ UNCHANGED <<a, k>>
       [] I.f = "pos"  -> c' = a /\ UNCHANGED <<a, k>>
       [] I.f = "bnot" -> c' = [i \in Lane |-> BNot(ty, a[i])] /\ UNCHANGED <<a, k>>
       [] I.f = "lnot" -> k' = [i \in Lane |-> Bit(IsSZero(ty, a[i]))] /\ UNCHANGED <<a, c>>
       [] I.f = "++x"  -> a' = [i \in Lane |-> SInc(I, a[i], i)] /\ c' = a' /\ UNCHANGED k
       [] I.f = "x++"  -> a' = [i \in Lane |-> SInc(I, a[i], i)] /\ c' = a /\ UNCHANGED k
       [] I.f = "--x"  -> a' = [i \in Lane |-> SDec(I, a[i], i)] /\ c' = a' /\ UNCHANGED k
       [] I.f = "x--"  -> a' = [i \in Lane |-> SDec(I, a[i], i)] /\ c' = a /\ UNCHANGED k
       [] I.f = "copy" -> c' = a /\ UNCHANGED <<a, k>>
  /\ ret' = <<>> /\ UNCHANGED <<b, k2, k3>> /\ KeepMem /\ Frame
\* c = a << n, c = a >> n with an int count
ShiftInt(I) == /\ c' = [i \in Lane |-> IF I.f = "<<" THEN Shl(ty, a[i], I.n) ELSE Shr(ty, a[i], I.n)]
               /\ ret' = <<>> /\ UNCHANGED <<a, b, maskVars>> /\ KeepMem /\ Frame
\* element-wise algorithms
MinMax(I) ==
  /\ CASE I.f = "min" -> c' = [i \in Lane |-> SMin(ty, a[i], b[i])] /\ UNCHANGED <<a, b>>
       [] I.f = "max" -> c' = [i \in Lane |-> SMax(ty, a[i], b[i])] /\ UNCHANGED <<a, b>>
       [] I.f = "minmax" -> /\ b' = [i \in Lane |-> SMin(ty, a[i], b[i])]
                            /\ c' = [i \in Lane |-> SMax(ty, a[i], b[i])] /\ UNCHANGED a
       [] I.f = "clamp" -> c' = [i \in Lane |-> SClamp(ty, a[i], b[i], c[i])] /\ UNCHANGED <<a, b>>
  /\ ret' = <<>> /\ UNCHANGED maskVars /\ KeepMem /\ Frame

(* ------------------------- construction, subscripts, memory ------------------ *)
Broadcast(I) == /\ a' = [i \in Lane |-> SConv([ref |-> [j \in Lane |-> I.ref[1]]], I.sty, ty, I.s, i)]
                /\ ret' = <<>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
\* the generator is called once per element with its index; I.gen: what it returned for each index
Generate(I) == /\ a' = [i \in Lane |-> SConv(I, I.sty, ty, I.gen[i], i)]
               /\ I.order = [i \in Lane |-> 1]      \* calls per index
               /\ ret' = <<>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
\* converting copy from another simd of the same ABI; its elements are I.gen
Convert(I) == /\ a' = [i \in Lane |-> SConv(I, I.sty, ty, I.gen[i], i)]
              /\ ret' = <<>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
ReadLane(I) == /\ ret' = a[I.i + 1]
               /\ UNCHANGED <<dataVars, maskVars>> /\ KeepMem /\ Frame
WriteLane(I) == /\ a' = [a EXCEPT ![I.i + 1] = I.s]
                /\ ret' = <<>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
\* compound operation through the reference returned by operator[]
BumpLane(I) == /\ a' = [a EXCEPT ![I.i + 1] = SBin(I, I.f, @, I.s, 1)]
               /\ ret' = <<>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
\* load / store at element offset o of the window
Load(I) == /\ a' = [i \in Lane |-> SConv(I, mty, ty, mem[I.o + i], i)]
           /\ ret' = <<>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
Store(I) == /\ mem' = [j \in DOMAIN mem |-> IF j - I.o \in Lane THEN SConv(I, ty, mty, a[j - I.o], j - I.o) ELSE mem[j]]
            /\ ret' = <<>> /\ UNCHANGED <<dataVars, maskVars, bmem>> /\ Frame

(* ------------------------- masks ---------------------------------------------- *)
MaskBinary(I) == /\ k3' = [i \in Lane |-> Bit(BoolF(I.f, k[i], k2[i]))]
                 /\ ret' = <<>> /\ UNCHANGED <<dataVars, k, k2>> /\ KeepMem /\ Frame
MaskCompound(I) == /\ k' = [i \in Lane |-> Bit(BoolF(I.f, k[i], k2[i]))]
                   /\ ret' = <<1>> /\ UNCHANGED <<dataVars, k2, k3>> /\ KeepMem /\ Frame
MaskUnary(I) == /\ k3' = [i \in Lane |-> IF I.f = "!" THEN 1 - k[i] ELSE k[i]]
                /\ ret' = <<>> /\ UNCHANGED <<dataVars, k, k2>> /\ KeepMem /\ Frame
Ones(m) == {i \in Lane : m[i] = 1}
MaskReduce(I) ==
  /\ ret' = CASE I.f = "all_of"   -> << Bit(Ones(k) = Lane) >>
              [] I.f = "any_of"   -> << Bit(Ones(k) # {}) >>
              [] I.f = "none_of"  -> << Bit(Ones(k) = {}) >>
              [] I.f = "some_of"  -> << Bit(Ones(k) # {} /\ Ones(k) # Lane) >>
              [] I.f = "popcount" -> << Cardinality(Ones(k)) >>
              [] I.f = "find_first_set" -> << (CHOOSE i \in Ones(k) : \A j \in Ones(k) : i <= j) - 1 >>
              [] I.f = "find_last_set"  -> << (CHOOSE i \in Ones(k) : \A j \in Ones(k) : i >= j) - 1 >>
  /\ UNCHANGED <<dataVars, maskVars>> /\ KeepMem /\ Frame
MaskBroadcast(I) == /\ k' = [i \in Lane |-> I.n]
                    /\ ret' = <<>> /\ UNCHANGED <<dataVars, k2, k3>> /\ KeepMem /\ Frame
MaskGenerate(I) == /\ k' = I.gen /\ I.order = [i \in Lane |-> 1]
                   /\ ret' = <<>> /\ UNCHANGED <<dataVars, k2, k3>> /\ KeepMem /\ Frame
MaskConvert(I) == /\ k' = I.gen
                  /\ ret' = <<>> /\ UNCHANGED <<dataVars, k2, k3>> /\ KeepMem /\ Frame
MaskRead(I) == /\ ret' = << k[I.i + 1] >>
               /\ UNCHANGED <<dataVars, maskVars>> /\ KeepMem /\ Frame
MaskWrite(I) == /\ k' = [k EXCEPT ![I.i + 1] = I.n]
                /\ ret' = <<>> /\ UNCHANGED <<dataVars, k2, k3>> /\ KeepMem /\ Frame
MaskLoad(I) == /\ k' = [i \in Lane |-> bmem[I.o + i]]
               /\ ret' = <<>> /\ UNCHANGED <<dataVars, k2, k3>> /\ KeepMem /\ Frame
\* masked load constructor: unselected elements are false
MaskLoadMasked(I) == /\ k' = [i \in Lane |-> IF k2[i] = 1 THEN bmem[I.o + i] ELSE 0]
                     /\ ret' = <<>> /\ UNCHANGED <<dataVars, k2, k3>> /\ KeepMem /\ Frame
MaskStore(I) == /\ bmem' = [j \in DOMAIN bmem |-> IF j - I.o \in Lane THEN k[j - I.o] ELSE bmem[j]]
                /\ ret' = <<>> /\ UNCHANGED <<dataVars, maskVars, mem>> /\ Frame

(* ------------------------- where-expressions ------------------------------------ *)
Sel(i) == k[i] = 1
\* where(k, a) = rhs
WAssign(I) == /\ a' = [i \in Lane |-> IF Sel(i) THEN Rhs(I, i) ELSE a[i]]
              /\ ret' = <<>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
WCompound(I) == /\ a' = [i \in Lane |-> IF Sel(i) THEN SBin(I, I.f, a[i], Rhs(I, i), i) ELSE a[i]]
                /\ ret' = <<>> /\ UNCHANGED <<b, c, maskVars>> /\ KeepMem /\ Frame
WUnary(I) ==
  /\ CASE I.f \in {"++x", "x++"} -> a' = [i \in Lane |-> IF Sel(i) THEN SInc(I, a[i], i) ELSE a[i]] /\ UNCHANGED c
       [] I.f \in {"--x", "x--"} -> a' = [i \in Lane |-> IF Sel(i) THEN SDec(I, a[i], i) ELSE a[i]] /\ UNCHANGED c
       [] I.f = "neg" -> c' = [i \in Lane |-> IF Sel(i) THEN Neg(ty, a[i]) ELSE a[i]] /\ UNCHANGED a
  /\ ret' = <<>> /\ UNCHANGED <<b, maskVars>> /\ KeepMem /\ Frame
\* masked load into a / masked load returning the blend (const operand)
WLoad(I) == /\ LET v == [i \in Lane |-> IF Sel(i) THEN SConv(I, mty, ty, mem[I.o + i], i) ELSE a[i]]
               IN IF I.f = "const" THEN c' = v /\ UNCHANGED a ELSE a' = v /\ UNCHANGED c
            /\ ret' = <<>> /\ UNCHANGED <<b, maskVars>> /\ KeepMem /\ Frame
WStore(I) == /\ mem' = [j \in DOMAIN mem |-> IF j - I.o \in Lane /\ Sel(j - I.o)
                                             THEN SConv(I, ty, mty, a[j - I.o], j - I.o) ELSE mem[j]]
             /\ ret' = <<>> /\ UNCHANGED <<dataVars, maskVars, bmem>> /\ Frame
\* where(k, k2) f= k3 and friends
WMask(I) ==
  /\ k2' = [i \in Lane |-> IF ~Sel(i) THEN k2[i]
                           ELSE CASE I.f = "="  -> k3[i]
                                  [] I.f = "s"  -> I.n
                                  [] OTHER -> Bit(BoolF(I.f, k2[i], k3[i]))]
  /\ ret' = <<>> /\ UNCHANGED <<dataVars, k, k3>> /\ KeepMem /\ Frame
WMaskLoad(I) == /\ k2' = [i \in Lane |-> IF Sel(i) THEN bmem[I.o + i] ELSE k2[i]]
                /\ ret' = <<>> /\ UNCHANGED <<dataVars, k, k3>> /\ KeepMem /\ Frame
WMaskStore(I) == /\ bmem' = [j \in DOMAIN bmem |-> IF j - I.o \in Lane /\ Sel(j - I.o) THEN k2[j - I.o] ELSE bmem[j]]
                 /\ ret' = <<>> /\ UNCHANGED <<dataVars, maskVars, mem>> /\ Frame

(* ------------------------- horizontal reductions ---------------------------------- *)
\* the selected lanes, in ascending order
Chosen(masked) == IF masked = 1 THEN SelectSeq([i \in Lane |-> i], LAMBDA i : k[i] = 1) ELSE [i \in Lane |-> i]
IOp(f, x, y) == CASE f = "min" -> SMin(ty, x, y)
                  [] f = "max" -> SMax(ty, x, y)
                  [] IsNarrow(ty) -> \* products of int-promoted narrow values are reduced modulo 2^bits
                                     IF f = "*" THEN << (x[1] * (y[1] % 256) + (((x[1] * (y[1] \div 256)) % 256) * 256)) % P2(ty.bits) >>
                                     ELSE NBin(f, ty, x, y)
                  [] OTHER -> WBin(f, ty, x, y, x)
RECURSIVE FoldI(_, _, _, _)
FoldI(f, s, i, acc) == IF i > Len(s) THEN acc ELSE FoldI(f, s, i + 1, IOp(f, acc, a[s[i]]))
RECURSIVE FoldF(_, _, _, _)
FoldF(f, s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET x == FInt(ty, a[s[i]]) IN FoldF(f, s, i + 1, IF f = "+" THEN acc + x ELSE acc * x)

Reduce(I) ==
  /\ LET s == Chosen(I.masked) IN
     IF Len(s) = 0 THEN ret' = I.id                       \* identity element
     ELSE IF I.f \in {"min", "max"}
     THEN /\ ret' = I.r
          /\ \E i \in 1..Len(s) : I.r = a[s[i]]
          /\ \A i \in 1..Len(s) : IF I.f = "min" THEN ~Less(ty, a[s[i]], I.r) ELSE ~Less(ty, I.r, a[s[i]])
     ELSE IF ty.k = "f"
     THEN /\ ret' = I.r
          /\ FInt(ty, I.r) = FoldF(I.f, s, 1, IF I.f = "+" THEN 0 ELSE 1)
     ELSE ret' = FoldI(I.f, Tail(s), 1, a[s[1]])
  /\ UNCHANGED <<dataVars, maskVars>> /\ KeepMem /\ Frame

Exec(I) ==
  CASE I.op = "boot" -> Boot(I)
    [] I.op = "set" -> Set(I)
    [] I.op = "bin" -> Binary(I)
    [] I.op = "casg" -> Compound(I)
    [] I.op = "cmp" -> Compare(I)
    [] I.op = "un" -> Unary(I)
    [] I.op = "shi" -> ShiftInt(I)
    [] I.op = "mm" -> MinMax(I)
    [] I.op = "bcast" -> Broadcast(I)
    [] I.op = "gen" -> Generate(I)
    [] I.op = "conv" -> Convert(I)
    [] I.op = "rd" -> ReadLane(I)
    [] I.op = "wr" -> WriteLane(I)
    [] I.op = "bump" -> BumpLane(I)
    [] I.op = "load" -> Load(I)
    [] I.op = "store" -> Store(I)
    [] I.op = "mbin" -> MaskBinary(I)
    [] I.op = "mcasg" -> MaskCompound(I)
    [] I.op = "mun" -> MaskUnary(I)
    [] I.op = "mred" -> MaskReduce(I)
    [] I.op = "mbcast" -> MaskBroadcast(I)
    [] I.op = "mgen" -> MaskGenerate(I)
    [] I.op = "mconv" -> MaskConvert(I)
    [] I.op = "mrd" -> MaskRead(I)
    [] I.op = "mwr" -> MaskWrite(I)
    [] I.op = "mload" -> MaskLoad(I)
    [] I.op = "mloadm" -> MaskLoadMasked(I)
    [] I.op = "mstore" -> MaskStore(I)
    [] I.op = "wasg" -> WAssign(I)
    [] I.op = "wcasg" -> WCompound(I)
    [] I.op = "wun" -> WUnary(I)
    [] I.op = "wload" -> WLoad(I)
    [] I.op = "wstore" -> WStore(I)
    [] I.op = "wmask" -> WMask(I)
    [] I.op = "wmload" -> WMaskLoad(I)
    [] I.op = "wmstore" -> WMaskStore(I)
    [] I.op = "reduce" -> Reduce(I)
=============================================================================
