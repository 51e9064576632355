----------------------------- MODULE TraitsTrace ----------------------------
(* Recorded traits, concepts, iota, floating-point bit operators and versions. *)
EXTENDS Traits, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]
PowerOf2(n) == \E e \in 0..12 : n = P2(e)

Accept(r) ==
  CASE r.op = "iota" -> r.out = [i \in 1..r.n |-> Number(r.ty, i - 1)]
    [] r.op = "bitop" -> r.out = [i \in DOMAIN r.a |-> [j \in DOMAIN r.a[i] |->
                           CASE r.name = "&" -> r.a[i][j] & r.b[i][j]
                             [] r.name = "|" -> r.a[i][j] | r.b[i][j]
                             [] r.name = "^" -> r.a[i][j] ^^ r.b[i][j]]]
    [] r.op = "concepts" -> r.out = Concepts(r.d, r.t, r.n)
    [] r.op = "size" -> r.out = r.n                          \* size() of the same type in several ways
    [] r.op = "native" -> r.out = Native(r.d, r.fb, r.ib)
    [] r.op = "alignment" -> r.out >= r.least /\ PowerOf2(r.out)
    [] r.op = "type" -> r.out = r.d                          \* rebind, resize, mask_type, ...
    [] r.op = "simdize_size" -> r.out = SimdizeSize(r.d)
    [] r.op = "simdize default" -> r.out = Widest(r.d, r.fb, r.ib)
    [] r.op = "simdize" -> r.out = Simdized(r.d, r.n).m /\ r.size = r.n /\ r.msize = r.n /\ r.tuple_size = Len(r.d.m)
    [] r.op = "version" -> r.out = VOps(r.a, r.b)
    [] r.op = "version macro" -> /\ r.version = (r.v[1] * 65536) + (r.v[2] * 256) + r.v[3]
                                 /\ r.v[2] \in 0..255 /\ r.v[3] \in 0..255
                                 /\ r.v = r.constant
    [] r.op = "identity" -> r.out = 1

Init == l = 1
Next == l <= Len(Trace) /\ Accept(R) /\ l' = l + 1 /\ TLCSet(1, l + 1)
TraceSpec == Init /\ TLCSet(1, 1) /\ [][Next]_l
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
