------------------------------ MODULE MoveTrace ------------------------------
(* Recorded results of casts, split, concat, resize, bit casts, permutations,  *)
(* shifts and AoS/SoA conversions.                                             *)
EXTENDS Move, Scalar, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]

ZeroOf(ty) == Zero(Limbs(ty))
SeqZip(F(_, _), x, y) == [i \in DOMAIN x |-> F(x[i], y[i])]
\* the bytes of a vector in memory order
BytesOf(ty, v) == IF ty.bits = 8 THEN FlattenSeq(v)
                  ELSE FlattenSeq([i \in DOMAIN v |-> Halves(v[i])])

Expected(r) ==
  CASE r.op = "cast" ->            \* integral: defined here; floating point: table of scalar casts
         << [i \in DOMAIN r.in[1] |->
               IF r.ty.k # "f" /\ r.sty.k # "f" THEN IConv(r.sty, r.ty, r.in[1][i]) ELSE r.ref[i]] >>
    [] r.op = "same" -> r.in
    [] r.op = "split" -> Split(r.in[1], r.p)
    [] r.op = "concat" -> << Concat(r.in) >>
    [] r.op = "resize" -> << Resize(r.in[1], r.p[1], ZeroOf(r.ty)) >>
    [] r.op = "permute" ->         \* p: result size, parameter
         LET F(i) == Index(r.name, r.p[2], i, Len(r.in[1]))
         IN << Permute(r.in[1], r.p[1], F, ZeroOf(r.ty), r.out[1]) >>
    [] r.op = "table" ->           \* p: the index of every result element
         LET F(i) == r.p[i + 1]
         IN << Permute(r.in[1], Len(r.p), F, ZeroOf(r.ty), r.out[1]) >>
    [] r.op = "shift_in" -> << ShiftIn(r.in, r.p[1], ZeroOf(r.ty)) >>
    [] r.op = "to_soa" -> ToSoA(r.in)
    [] r.op = "to_aos" -> ToAoS(r.in)
    [] r.op = "object" -> << [m \in DOMAIN r.in |-> r.in[m][r.p[1] + 1]] >>   \* object number p of a SoA
    [] r.op = "broadcast" -> [m \in DOMAIN r.in[1] |-> [i \in 1..r.p[1] |-> r.in[1][m]]]
    [] r.op = "lift" -> r.ref                                                \* table of scalar results

Accept(r) ==
  /\ r.fault = 0
  /\ r.outside = 0
  /\ IF r.op = "bits" THEN BytesOf(r.sty, r.in[1]) = BytesOf(r.ty, r.out[1])
     ELSE r.out = Expected(r)

Init == l = 1
Next == l <= Len(Trace) /\ Accept(R) /\ l' = l + 1 /\ TLCSet(1, l + 1)
TraceSpec == Init /\ TLCSet(1, 1) /\ [][Next]_l
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
