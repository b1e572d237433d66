------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* All sequences of builder calls on every structure, up to a length.  The *)
(* structures and their methods are those of the library (VH_TABLE).       *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils

Table == ndJsonDeserialize(IOEnv.VH_TABLE)
Depth == atoi(IOEnv.VH_DEPTH)

VARIABLES ty, st, h
vars == <<ty, st, h>>

Fs == Table[ty].fields
Zero == [f \in DOMAIN Fs |-> IF Fs[f].k = "ptr" THEN Null ELSE Fs[f].zero]
Keys == {"a", "b"}
Val(f, i) == IF Fs[f].k = "map" THEN Obj("s" :> Str(ToString(i))) ELSE Str(ToString(i))

Args(d, key) == IF d.op = "item" THEN <<Str(key), Str(ToString(Len(h)))>> ELSE IF d.op = "set" THEN <<Val(d.f, Len(h))>> ELSE <<>>

Init == ty \in DOMAIN Table /\ st = [f \in DOMAIN Table[ty].fields |-> IF Table[ty].fields[f].k = "ptr" THEN Null ELSE Table[ty].fields[f].zero] /\ h = <<>>
Call(m, key) ==
  LET d == Method(Fs, m) IN
  /\ d.op # "none"
  /\ st' = Apply(Table[ty].type, Fs, st, d, Args(d, key))
  /\ h' = Append(h, [m |-> m, key |-> key])
  /\ ty' = ty
  /\ IF Len(h) + 1 = Depth THEN PrintT("@%" \o ToJson([type |-> Table[ty].type, h |-> h'])) ELSE TRUE
Next ==
  /\ Len(h) < Depth
  /\ \E i \in DOMAIN Table[ty].methods :
       LET m == Table[ty].methods[i] IN
       \E key \in (IF Method(Fs, m).op = "item" THEN Keys ELSE {""}) : Call(m, key)
Spec == Init /\ [][Next]_vars

LastCall == h'[Len(h')]
D == Method(Fs, LastCall.m)
\* A call touches nothing but the member it names.
OnlyNamed == \A f \in DOMAIN st : f # D.f => st'[f] = st[f]
\* It stores, and it leaves the other keys; what is ensured is not lost.
Stores ==
  CASE D.op = "set" -> st'[D.f] # Null /\ (IF Fs[D.f].k = "ptr" THEN st'[D.f][1] = "p" ELSE TRUE)
    [] D.op = "item" -> \A k \in DOMAIN Items(st'[D.f]) : k = LastCall.key \/ (Has(Items(st[D.f]), k) /\ Items(st'[D.f])[k] = Items(st[D.f])[k])
    [] D.op = "ens" -> st'[D.f] # Null /\ (st[D.f] # Null => st'[D.f] = st[D.f])
    [] OTHER -> FALSE
Framed == [][OnlyNamed /\ Stores]_vars
\* The latest call wins: setting after anything forgets what was there.
InvLatest ==
  \A f \in DOMAIN st :
    LET sets == {i \in DOMAIN h : Method(Fs, h[i].m) = [op |-> "set", f |-> f]}
        last == IF sets = {} THEN 0 ELSE CHOOSE i \in sets : \A j \in sets : j <= i
    IN last # 0 /\ (\A j \in (last + 1)..Len(h) : Method(Fs, h[j].m).f # f \/ Method(Fs, h[j].m).op = "ens")
       => st[f] = (IF Fs[f].k = "ptr" THEN Ptr(Val(f, last - 1)) ELSE Val(f, last - 1))
=============================================================================
