------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Builder methods of the structures documents are made of.  A structure   *)
(* is a record of members; a method is known by its name alone:            *)
(*   With<M>      stores its argument in member M                          *)
(*   With<M>Item  stores its second argument in M under the key            *)
(*   <M>Ens       makes M, a pointer, point to something, and returns it   *)
(* and none of them does anything else.  Values are trees (JV) with        *)
(* pointers: <<"p", value>>, <<"z">> for nil; empty collections are nil.   *)
(***************************************************************************)
EXTENDS JV

Ptr(v) == <<"p", v>>

\* What a method is, given the members [k |-> kind, zero |-> zero value of the
\* member or of what it points to].
Base(m) == IF StartsWith(m, "With") THEN From(m, 5) ELSE m
Upto(s, suffix) == SubSeq(s, 1, Len(s) - Len(suffix))
Method(fs, m) ==
  IF StartsWith(m, "With") /\ Has(fs, Base(m)) THEN [op |-> "set", f |-> Base(m)]
  ELSE IF StartsWith(m, "With") /\ EndsWith(m, "Item") /\ Len(m) > 8 /\ Has(fs, Upto(Base(m), "Item")) THEN [op |-> "item", f |-> Upto(Base(m), "Item")]
  ELSE IF EndsWith(m, "Ens") /\ Has(fs, Upto(m, "Ens")) /\ fs[Upto(m, "Ens")].k = "ptr" THEN [op |-> "ens", f |-> Upto(m, "Ens")]
  \* The only one that is not named after a member: operation of a method.
  ELSE IF m = "WithOperation" /\ Has(fs, "MapOfOperationValues") THEN [op |-> "item", f |-> "MapOfOperationValues"]
  ELSE [op |-> "none", f |-> ""]

Items(v) == IF IsNull(v) THEN Empty ELSE v[2]

\* Members after the call.
\* A new document of a reflector has a version already.
Fresh(t, zero) ==
  IF t \in {"3.Reflector", "31.Reflector"} THEN Obj(Put(zero[2], "Openapi", Str(IF t = "3.Reflector" THEN "3.0.3" ELSE "3.1.0"))) ELSE zero
Apply(t, fs, st, d, args) ==
  CASE d.op = "set" -> Put(st, d.f, IF fs[d.f].k = "ptr" THEN Ptr(args[1]) ELSE args[1])
    [] d.op = "item" -> Put(st, d.f, Obj(Put(Items(st[d.f]), args[1][2], args[2])))
    [] d.op = "ens" -> IF IsNull(st[d.f]) THEN Put(st, d.f, Ptr(Fresh(t, fs[d.f].zero))) ELSE st
    [] OTHER -> st

\* What the call returns is its receiver, or the value that was ensured.
Fluent(d) == d.op \in {"set", "item"}
=============================================================================
