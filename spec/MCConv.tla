-------------------------------- MODULE MCConv -------------------------------
(***************************************************************************)
(* All schemas that can be built in a number of steps, each adding one     *)
(* keyword or wrapping what was built in an applicator.  The conversions   *)
(* have to keep what the schema means for every value of a small universe. *)
(* Every schema is printed, to be converted by the library.                *)
(***************************************************************************)
EXTENDS Valid, Json, IOUtils

Depth == atoi(IOEnv.VH_DEPTH)
VARIABLES s, n
vars == <<s, n>>

S(x) == Str(x)
N(x) == Num(ToString(x))
A(q) == Arr(q)

Keywords ==
  ({"type"} \X ({S(t) : t \in {"string", "integer", "number", "boolean", "array", "object", "null"}}
               \cup {A(<<S(t), S("null")>>) : t \in {"string", "integer", "array", "object"}}))
  \cup ({"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} \X {N(0), N(1), N(2)})
  \cup ({"multipleOf"} \X {N(2)})
  \cup ({"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"} \X {N(1)})
  \cup ({"uniqueItems"} \X {Bool(TRUE), Bool(FALSE)})
  \cup ({"enum"} \X {A(<<S("a"), N(1)>>), A(<<Null, N(2)>>)})
  \cup ({"required"} \X {A(<<S("a")>>), A(<<S("a"), S("b")>>)})
  \cup ({"additionalProperties"} \X {Bool(TRUE), Bool(FALSE)})
  \cup ({"pattern", "format", "title", "description"} \X {S("a")})
  \cup ({"default"} \X {N(1), Null}) \cup ({"examples"} \X {A(<<N(1)>>)})
  \cup ({"readOnly", "writeOnly", "deprecated"} \X {Bool(TRUE), Bool(FALSE)})
  \cup ({"x-ext"} \X {A(<<Null>>)})

Others == {Obj("type" :> S("string")), Obj("exclusiveMinimum" :> N(0)), Bool(FALSE), Obj("type" :> A(<<S("integer"), S("null")>>))}
Wraps(x) ==
  {Obj("not" :> x), Obj("items" :> x), Obj("additionalProperties" :> x), Obj("properties" :> Obj("a" :> x)),
   Obj(("properties" :> Obj("a" :> Bool(TRUE))) @@ ("additionalProperties" :> x))}
  \cup {Obj(k :> A(<<x>>)) : k \in SubSeqKeys}
  \cup {Obj(k :> A(<<o, x>>)) : k \in SubSeqKeys, o \in Others}

Init == s = EmptyObj /\ n = 0
Next == /\ n < Depth
        /\ n' = n + 1
        /\ \/ \E kv \in Keywords : IsObj(s) /\ ~Has(s[2], kv[1]) /\ s' = Obj(Put(s[2], kv[1], kv[2]))
           \/ \E w \in Wraps(s) : s' = w
        /\ PrintT("@%" \o ToJson(s'))
Spec == Init /\ [][Next]_vars

Scalars == {Null, Bool(TRUE), N(0), N(1), N(2), N(3), S(""), S("a"), S("bc")}
Universe == Scalars \cup {A(<<>>), EmptyObj, A(<<N(1), N(1)>>), A(<<N(1), N(2)>>), A(<<Null>>), A(<<S("a"), S("")>>),
                          Obj("b" :> N(0))}
            \cup {A(<<x>>) : x \in {N(0), S("a"), A(<<N(0)>>)}}
            \cup {Obj("a" :> x) : x \in {Null, N(0), N(1), S("a"), A(<<N(1)>>), Obj("a" :> N(1))}}
            \cup {Obj(("a" :> N(1)) @@ ("b" :> S("")))}

\* C14: the converted schema accepts the same values, and so does the one
\* converted back.
InvMeaning == \A v \in Universe : ValidJS(s, v) = ValidOAS(ToOAS(s), v)
InvBack == LET b == FromOAS(ToOAS(s)) IN \A v \in Universe : ValidJS(s, v) = ValidJS(b, v)
\* Converting once more changes nothing.
InvStable == LET o == ToOAS(s) IN ToOAS(FromOAS(o)) = o
View == s
=============================================================================
