------------------------------- MODULE MCCodec -------------------------------
(***************************************************************************)
(* Objects of every kind, built from the smallest one by adding members,   *)
(* and then damaged in one place.  Checks that the specification of what   *)
(* decoding keeps is consistent; every object is printed, to be decoded    *)
(* and encoded by the library.                                             *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Depth == atoi(IOEnv.VH_DEPTH)
VARIABLES ver, kind, leaf, v, n, fault
vars == <<ver, kind, leaf, v, n, fault>>

J(x) == Num(ToString(x))
\* The kinds an object of a kind can be.
RECURSIVE Leaves(_, _)
Leaves(ver0, k) ==
  IF k = "!bool" THEN {} ELSE
  LET K == Kinds(ver0)[k] IN IF K.alts = <<>> THEN {k} ELSE UNION {Leaves(ver0, K.alts[i]) : i \in DOMAIN K.alts}

RECURSIVE Least(_, _)
\* The smallest value of a type.
Least(ver0, t) ==
  CASE t[1] \in {"str", "link"} -> Str("a")
    [] t[1] = "version" -> Str(IF ver0 = "3" THEN "3.0.3" ELSE "3.1.0")
    [] t[1] = "ref" -> Str(t[2] \o "A")
    [] t[1] = "nobearer" -> Str("basic")
    [] t[1] = "style" -> Str("form")
    [] t[1] = "bool" -> Bool(TRUE)
    [] t[1] = "num" -> Num("1.5")
    [] t[1] = "nat" -> J(2)
    [] t[1] = "any" -> Arr(<<Null, Obj("a" :> Str("b"))>>)
    [] t[1] \in {"free", "kfree"} -> Obj("type" :> Str("string"))
    [] t[1] = "enum" -> Str(t[2][1])
    [] t[1] = "list" -> Arr(<<Least(ver0, t[2])>>)
    [] t[1] \in {"map", "kmap"} -> Obj("k" :> Least(ver0, t[2]))
    [] t[1] = "obj" ->
         LET K == Kinds(ver0)[t[2]] IN
         IF K.alts # <<>> THEN Least(ver0, O(K.alts[1]))
         ELSE IF t[2] = "Header" /\ ver0 = "31" THEN Obj("schema" :> Obj("type" :> Str("string")))
         ELSE IF t[2] = "Parameter" THEN Obj(("name" :> Str("a")) @@ ("in" :> Str("query")) @@ ("schema" :> EmptyObj))
         ELSE Obj([k \in K.req |-> Least(ver0, K.mem[k])])

Vals(ver0, t) ==
  CASE t[1] \in {"str", "link"} -> {Str("a"), Str(""), Str("null")}
    [] t[1] = "bool" -> {Bool(TRUE), Bool(FALSE)}
    [] t[1] = "num" -> {J(0), Num("-1.5")}
    [] t[1] = "nat" -> {J(0), J(7)}
    [] t[1] = "any" -> {Null, Str(""), J(0), Bool(FALSE), Arr(<<>>), EmptyObj, Least(ver0, t)}
    [] t[1] \in {"free", "kfree"} -> {EmptyObj, Obj("type" :> Arr(<<Str("string"), Str("null")>>)), Obj(("x-a" :> Null) @@ ("custom" :> Arr(<<>>)))}
    [] t[1] = "enum" -> {Str(t[2][i]) : i \in DOMAIN t[2]}
    [] t[1] = "list" -> {Arr(<<>>), Arr(<<Least(ver0, t[2]), Least(ver0, t[2])>>)}
    [] t[1] \in {"map", "kmap"} -> {EmptyObj, Obj(("k" :> Least(ver0, t[2])) @@ ("x-k" :> Least(ver0, t[2])))}
    [] t[1] = "obj" -> {Least(ver0, O(k)) : k \in Leaves(ver0, t[2])} \cup (IF t[2] = "SchemaAdditionalProperties" THEN {Bool(TRUE), Bool(FALSE)} ELSE {})
    [] OTHER -> {Least(ver0, t)}

RECURSIVE Bad(_, _)
\* Values of a wrong type.
Bad(ver0, t) ==
  CASE t[1] = "bool" -> {Str("true"), J(0), Arr(<<>>)}
    [] t[1] = "num" -> {Str("1"), Bool(TRUE), EmptyObj}
    [] t[1] = "nat" -> {Str("1"), Num("1.5")}
    [] t[1] \in {"any", "link"} -> {}
    [] t[1] \in {"free", "kfree"} -> {J(1), Str("a"), Arr(<<>>)}
    [] t[1] = "enum" -> {Str(""), Str("other"), J(1)}
    [] t[1] = "list" -> {Str("a"), EmptyObj} \cup {Arr(<<Least(ver0, t[2]), x>>) : x \in Bad(ver0, t[2])}
    [] t[1] \in {"map", "kmap"} -> {Str("a"), Arr(<<>>)} \cup {Obj(("k" :> x) @@ ("j" :> Least(ver0, t[2]))) : x \in Bad(ver0, t[2])}
    [] t[1] = "obj" -> {J(1), Str("a"), Arr(<<>>)} \cup (IF t[2] = "SchemaAdditionalProperties" THEN {} ELSE {Bool(TRUE)})
    [] OTHER -> {J(1), Bool(TRUE), Arr(<<>>), EmptyObj}

\* Members a kind can have, with their types.
Mem(K) ==
  K.mem @@ (IF K.pat = <<>> THEN Empty ELSE
     LET t == K.pat[1][2]
     IN CASE K.pat[1][1] = "path" -> [k \in {"/", "/a/{b}"} |-> t]
          [] K.pat[1][1] = "method" -> [k \in Methods |-> t]
          [] K.pat[1][1] = "code" -> [k \in {"200", "5XX"} |-> t]
          [] K.pat[1][1] = "any" -> [k \in {"a", "{$request.body#/a}", "/x"} |-> t])

Show(w) == PrintT("@%" \o ToJson([v |-> ver, kind |-> kind, value |-> w]))

Init ==
  /\ ver \in {"3", "31"}
  /\ kind \in {k \in DOMAIN Kinds(ver) : ~(ver = "31" /\ StartsWith(k, "SecurityScheme") /\ Len(k) > 14 /\ k # "SecuritySchemeOrReference")}
  /\ leaf \in Leaves(ver, kind)
  /\ v = Least(ver, O(leaf))
  /\ n = 0 /\ fault = ""
  /\ Show(v)

Ok(w) == OKKind(ver, kind, w)
ASSUME PrintT("@K" \o ToJson([x \in {"3", "31"} |-> Kinds(x)]))

\* Members 3.1 does not know may be there and are not kept, that is not judged.
Foreign(w) == Ok(Obj(w)) /\ LET c == CanonKind(ver, kind, Obj(w)) IN \E k \in DOMAIN w : ~Has(c[2], k) /\ ~IsNull(w[k]) /\ ~IsEmptyColl(w[k])
\* Neither is a parameter or header whose content is empty.
NoContent(w) == leaf \in {"Parameter", "Header"} /\ Has(w, "content") /\ w["content"] = EmptyObj
Step(w, f) == ~NoContent(w) /\ ~Foreign(w) /\ v' = Obj(w) /\ fault' = f /\ n' = n + 1 /\ UNCHANGED <<ver, kind, leaf>> /\ Show(v')
Next ==
  /\ fault = "" /\ n <= Depth
  /\ LET K == Kinds(ver)[leaf]
         f == v[2]
         M == Mem(K)
         \* A pair of members is tried with one value of the second only.
         vals(k) == IF n = 0 THEN Vals(ver, M[k]) ELSE {Least(ver, M[k])}
     IN \/ /\ n < Depth
           /\ \/ \E k \in DOMAIN M : \E x \in vals(k) : (n = 0 \/ ~Has(f, k)) /\ Get(f, k, Null) # x /\ Step(Put(f, k, x), "")
              \/ K.ext /\ ~Has(f, "x-") /\ \E k \in {"x-", "x-a.b"} : \E x \in (IF n = 0 THEN Vals(ver, A) ELSE {Least(ver, A)}) : ~Has(f, k) /\ Step(Put(f, k, x), "")
        \/ \E k \in K.req : Has(f, k) /\ Step(Del(f, {k}), "missing")
        \/ \E k \in DOMAIN M : \E x \in Bad(ver, M[k]) : (n = 0 \/ Has(f, k)) /\ Step(Put(f, k, x), "type")
        \/ K.strict /\ \E k \in {"bogus", "y-a", "X-a"} : (IF K.pat = <<>> THEN TRUE ELSE K.pat[1][1] # "any") /\ Step(Put(f, k, Str("a")), "unknown")
Spec == Init /\ [][Next]_vars

\* What C13 says about damaged objects.  The exception: an API key scheme that
\* says "http" and the like may be an object of another alternative.
InvFaults == fault # "" => ~Ok(v) \/ Cardinality(Leaves(ver, kind)) > 1
\* Well-formed objects stay so when decoded and encoded, and change no more.
InvCanon == Ok(v) => LET c == CanonKind(ver, kind, v) IN Ok(c) /\ CanonKind(ver, kind, c) = c
\* C11: all that is lost are nulls, empty collections and what the version does not define.
InvKeeps == Ok(v) => LET c == CanonKind(ver, kind, v)[2]
                         K == Kinds(ver)[leaf]
                     IN \A k \in DOMAIN v[2] : Has(c, k) \/ IsNull(v[2][k]) \/ IsEmptyColl(v[2][k]) \/ (MemberType(K, k) = <<>> /\ ~(K.ext /\ IsExt(k)))
View == <<ver, kind, leaf, v>>
=============================================================================
