------------------------------ MODULE Reflect -------------------------------
(***************************************************************************)
(* Reflection of aggregates.  An object is the sequence of its members in    *)
(* declaration order; a member is a record                                   *)
(*    ty: type, c: 1 if const, at: position in the object, v: value.          *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* a reference to a member of a (const) object
Ref(m, const) == [ty |-> m.ty, c |-> IF const THEN 1 ELSE m.c, at |-> m.at, v |-> m.v]
Refs(ms, const) == [i \in DOMAIN ms |-> Ref(ms[i], const)]
Type(m, const) == [ty |-> m.ty, c |-> IF const THEN 1 ELSE m.c]
Types(ms, const) == [i \in DOMAIN ms |-> Type(ms[i], const)]
Values(ms) == [i \in DOMAIN ms |-> ms[i].v]
\* the type of a pair or tuple of the members (ref = 1: of references to them)
Product(kind, ms, const, ref) ==
  [kind |-> kind, types |-> [i \in DOMAIN ms |-> [ty |-> ms[i].ty, c |-> IF const THEN 1 ELSE ms[i].c, ref |-> ref]],
   c |-> 0, ref |-> ""]
\* ... with the qualifiers of T, const T, T&, const T&, T&&
Qualified(kind, ms) ==
  [k \in 1..5 |-> [Product(kind, ms, FALSE, 0) EXCEPT !.c = <<0, 1, 0, 1, 0>>[k], !.ref = <<"", "", "l", "l", "r">>[k]]]
=============================================================================
