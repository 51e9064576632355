---------------------------- MODULE ReflectTrace ----------------------------
(* Recorded results of vir/struct_reflect.h.                                   *)
EXTENDS Reflect, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]

Struct(r) ==
  LET d == r.decl IN
  /\ r.size = Len(d)
  /\ r.csize = Len(d)
  /\ r.reflectable = 1
  /\ r.get = Refs(d, FALSE)
  /\ r.cget = Refs(d, TRUE)
  /\ r.el = Types(d, FALSE)
  /\ r.cel = Types(d, TRUE)
  /\ r.ref.l = Product("tuple", d, FALSE, 1)
  /\ r.ref.cl = Product("tuple", d, TRUE, 1)
  /\ r.ref.r = Refs(d, FALSE)
  /\ r.ref.cr = Refs(d, TRUE)
  /\ r.tup.has = 1 =>
       /\ r.tup.l = Product("tuple", d, FALSE, 0)
       /\ r.tup.v = Values(d)
       /\ r.tup.cv = Values(d)
       /\ r.tup.as = Qualified("tuple", d)
  /\ r.tup.has = 1 /\ Len(d) = 2 =>
       /\ r.pair.l = Product("pair", d, FALSE, 0)
       /\ r.pair.v = Values(d)
       /\ r.pair.cv = Values(d)
       /\ r.pair.rl = Product("pair", d, FALSE, 1)
       /\ r.pair.crl = Product("pair", d, TRUE, 1)
       /\ r.pair.r = Refs(d, FALSE)
       /\ r.pair.cr = Refs(d, TRUE)
       /\ r.pair.as = Qualified("pair", d)

Accept(r) ==
  CASE r.op = "struct" -> Struct(r)
    [] r.op = "size" -> r.size = r.n
    [] r.op = "concept" -> r.size = r.n
    [] r.op = "constant" -> r.v = r.decl
    [] r.op = "write" ->            \* a write through the reference changes that member only
         /\ r.at = r.decl[r.i + 1].at
         /\ r.changed = 1
         /\ r.outside = 0

Init == l = 1
Next == l <= Len(Trace) /\ Accept(R) /\ l' = l + 1 /\ TLCSet(1, l + 1)
TraceSpec == Init /\ TLCSet(1, 1) /\ [][Next]_l
Report == PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
=============================================================================
