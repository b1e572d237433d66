----------------------------- MODULE SchemaConv -----------------------------
(***************************************************************************)
(* JSON Schema (as used by OpenAPI 3.1 documents) and OpenAPI 3.0 schema   *)
(* objects: conversions in both directions, and export of a document       *)
(* schema as a self-contained JSON Schema.                                 *)
(***************************************************************************)
EXTENDS JV

RefPrefix == "#/components/schemas/"
RefTo(name) == Obj("$ref" :> Str(RefPrefix \o name))
IsRef(v) == IsObj(v) /\ Has(v[2], "$ref")
IsLocalRef(v) == IsRef(v) /\ StartsWith(v[2]["$ref"][2], RefPrefix)
RefName(v) == TrimPrefix(v[2]["$ref"][2], RefPrefix)

\* Keywords both vocabularies share with the same meaning.
SameKeys == {"title", "description", "default", "enum", "format", "pattern", "multipleOf", "required",
             "maxLength", "minLength", "maxItems", "minItems", "maxProperties", "minProperties",
             "readOnly", "writeOnly", "uniqueItems", "deprecated"}
SubSeqKeys == {"allOf", "oneOf", "anyOf"}

TypeList(t) == IF IsArr(t) THEN [i \in DOMAIN t[2] |-> t[2][i][2]] ELSE <<t[2]>>
TypeNames(f) == IF Has(f, "type") THEN Range0(TypeList(f["type"])) ELSE {}

(***************************************************************************)
(* Numeric text comparison is not needed for inclusive/exclusive choice    *)
(* unless both bounds are present; LeqNum covers integer texts.            *)
(***************************************************************************)
RECURSIVE DigitsVal(_, _)
DigitsVal(s, acc) ==
  IF s = "" THEN acc
  ELSE DigitsVal(From(s, 2), acc * 10 + (CHOOSE d \in 0..9 : ToString(d) = Ch(s, 1)))
IntVal(s) == IF Ch(s, 1) = "-" THEN -DigitsVal(From(s, 2), 0) ELSE DigitsVal(s, 0)

Bound(f, incl, excl, lower) ==
  \* OpenAPI 3.0 members for one bound: tighter of inclusive and exclusive.
  LET hi == Has(f, incl)
      he == Has(f, excl)
      useE == he /\ (~hi \/ (IF lower THEN IntVal(f[excl][2]) >= IntVal(f[incl][2])
                                       ELSE IntVal(f[excl][2]) <= IntVal(f[incl][2])))
  IN IF useE THEN (excl :> Bool(TRUE)) @@ (incl :> f[excl])
     ELSE IF hi THEN incl :> f[incl] ELSE Empty

XKeys(f) == {k \in DOMAIN f : StartsWith(k, "x-")}

RECURSIVE ToOAS(_)
\* JSON Schema value -> OpenAPI 3.0 schema value.
ToOAS(j) ==
  IF IsBool(j) THEN IF j[2] THEN EmptyObj ELSE Obj("not" :> EmptyObj)
  ELSE LET f == j[2] IN
    IF Has(f, "$ref")
    THEN IF Has(f, "deprecated") /\ True(f["deprecated"])
         THEN Obj("allOf" :> Arr(<<Obj("deprecated" :> Bool(TRUE)), Obj("$ref" :> f["$ref"])>>))
         ELSE Obj("$ref" :> f["$ref"])
    ELSE
      LET same == Only(f, SameKeys \cup XKeys(f))
          ty == TypeNames(f)
          typed == Over(IF ty \ {"null"} # {} THEN "type" :> Str(CHOOSE t \in ty \ {"null"} : TRUE) ELSE Empty,
                        IF "null" \in ty THEN "nullable" :> Bool(TRUE) ELSE Empty)
          bounds == Over(Bound(f, "maximum", "exclusiveMaximum", FALSE), Bound(f, "minimum", "exclusiveMinimum", TRUE))
          ex == IF Has(f, "examples") THEN "example" :> f["examples"][2][1] ELSE Empty
          subs == [k \in DOMAIN f \cap SubSeqKeys |-> Arr([i \in DOMAIN f[k][2] |-> ToOAS(f[k][2][i])])]
          one == [k \in {x \in {"not", "items"} : Has(f, x) /\ ~IsArr(f[x])} |-> ToOAS(f[k])]
          addl == IF Has(f, "additionalProperties")
                  THEN "additionalProperties" :> (IF IsBool(f["additionalProperties"]) THEN f["additionalProperties"]
                                                  ELSE ToOAS(f["additionalProperties"]))
                  ELSE Empty
          props == IF Has(f, "properties")
                   THEN "properties" :> Obj([p \in DOMAIN f["properties"][2] |-> ToOAS(f["properties"][2][p])])
                   ELSE Empty
      IN Obj(Over(Over(Over(same, typed), Over(bounds, ex)), Over(Over(subs, one), Over(addl, props))))

RECURSIVE FromOAS(_)
\* OpenAPI 3.0 schema value -> JSON Schema value.
FromOAS(o) ==
  LET f == o[2] IN
  IF Has(f, "$ref") THEN Obj("$ref" :> f["$ref"])
  ELSE
    LET same == Only(f, SameKeys \cup XKeys(f))
        nul == Has(f, "nullable") /\ True(f["nullable"])
        typed == IF Has(f, "type")
                 THEN "type" :> (IF nul THEN Arr(<<f["type"], Str("null")>>) ELSE f["type"])
                 ELSE IF nul THEN "type" :> Str("null") ELSE Empty
        bound(incl, excl) == IF ~Has(f, incl) THEN Empty
                             ELSE IF Has(f, excl) /\ True(f[excl]) THEN excl :> f[incl] ELSE incl :> f[incl]
        ex == IF Has(f, "example") THEN "examples" :> Arr(<<f["example"]>>) ELSE Empty
        subs == [k \in DOMAIN f \cap SubSeqKeys |-> Arr([i \in DOMAIN f[k][2] |-> FromOAS(f[k][2][i])])]
        one == [k \in DOMAIN f \cap {"not", "items"} |-> FromOAS(f[k])]
        addl == IF Has(f, "additionalProperties")
                THEN "additionalProperties" :> (IF IsBool(f["additionalProperties"]) THEN f["additionalProperties"]
                                                ELSE FromOAS(f["additionalProperties"]))
                ELSE Empty
        props == IF Has(f, "properties")
                 THEN "properties" :> Obj([p \in DOMAIN f["properties"][2] |-> FromOAS(f["properties"][2][p])])
                 ELSE Empty
    IN Obj(Over(Over(Over(same, typed), Over(bound("maximum", "exclusiveMaximum"), bound("minimum", "exclusiveMinimum"))),
                Over(Over(ex, subs), Over(one, Over(addl, props)))))

\* JSON Schema in a normal form where the type list is unordered, for comparison.
RECURSIVE NormTypes(_)
NormTypes(v) ==
  CASE IsArr(v) -> Arr([i \in DOMAIN v[2] |-> NormTypes(v[2][i])])
    [] IsObj(v) -> Obj([k \in DOMAIN v[2] |->
         IF k = "type" /\ IsArr(v[2][k]) /\ (\A i \in DOMAIN v[2][k][2] : IsStr(v[2][k][2][i]))
         THEN <<"t", {v[2][k][2][i][2] : i \in DOMAIN v[2][k][2]}>>
         ELSE IF k = "type" /\ IsStr(v[2][k]) THEN <<"t", {v[2][k][2]}>>
         ELSE NormTypes(v[2][k])])
    [] OTHER -> v

-----------------------------------------------------------------------------
(* Export.  comps maps component names to exported schemas (JSON Schema).  *)

\* Applicator keywords of JSON Schema: with one schema, a list, a map of them.
OneKeys31 == {"not", "additionalProperties", "if", "then", "else", "contains", "propertyNames", "additionalItems",
              "unevaluatedItems", "unevaluatedProperties", "contentSchema", "items"}
SeqKeys31 == SubSeqKeys \cup {"prefixItems", "items"}
MapKeys31 == {"properties", "patternProperties", "definitions", "$defs", "dependentSchemas", "dependencies"}

\* Sub-schemas of a schema object with the place of each: <<keyword, key, schema>>.
Kids(f) ==
  {<<k, "", f[k]>> : k \in {x \in DOMAIN f \cap OneKeys31 : IsObj(f[x])}}
  \cup UNION {{<<k, ToString(i), f[k][2][i]>> : i \in {j \in DOMAIN f[k][2] : IsObj(f[k][2][j])}} : k \in {x \in DOMAIN f \cap SeqKeys31 : IsArr(f[x])}}
  \cup UNION {{<<k, p, f[k][2][p]>> : p \in {q \in DOMAIN f[k][2] : IsObj(f[k][2][q])}} : k \in {x \in DOMAIN f \cap MapKeys31 : IsObj(f[x])}}

RECURSIVE LocalRefs(_)
\* Names of components referred to from schema positions of the JSON Schema v.
LocalRefs(v) ==
  IF ~IsObj(v) THEN {}
  ELSE (IF IsLocalRef(v) THEN {RefName(v)} ELSE {}) \cup UNION {LocalRefs(kid[3]) : kid \in Kids(v[2])}

RECURSIVE Reach(_, _, _)
\* Names reachable from todo through comps.
Reach(comps, todo, seen) ==
  IF todo \subseteq seen THEN seen
  ELSE Reach(comps, UNION {IF Has(comps, n) THEN LocalRefs(comps[n]) ELSE {} : n \in todo \ seen}, seen \cup todo)

RECURSIVE CountRefs(_, _)
\* Occurrences of a reference to n in schema positions of v.
CountRefs(v, n) ==
  IF ~IsObj(v) THEN 0
  ELSE (IF IsLocalRef(v) /\ RefName(v) = n THEN 1 ELSE 0) + MapThenSumSet(LAMBDA kid : CountRefs(kid[3], n), Kids(v[2]))

\* Export of JSON Schema js given exported components comps.  A root
\* that is nothing but a reference used once in the whole closure is inlined.
Export(js, comps) ==
  LET names == Reach(comps, LocalRefs(js), {})
      body(n) == IF Has(comps, n) THEN comps[n] ELSE EmptyObj
      root == IF IsLocalRef(js) THEN RefName(js) ELSE ""
      again == IF root = "" THEN FALSE ELSE \E n \in names : CountRefs(body(n), root) > 0
      inl == IsLocalRef(js) /\ DOMAIN js[2] = {"$ref"} /\ ~again
      top == IF inl THEN body(root) ELSE js
      rest == IF inl THEN names \ {root} ELSE names
  IN IF rest = {} THEN top
     ELSE Obj(Put(top[2], "components", Obj("schemas" :> Obj([n \in rest |-> body(n)]))))

\* What export is for: every reference found in the result resolves inside it.
SelfContained(x) ==
  LET inside == IF Has(x[2], "components") THEN DOMAIN x[2]["components"][2]["schemas"][2] ELSE {}
      bodies == IF Has(x[2], "components") THEN {x[2]["components"][2]["schemas"][2][n] : n \in inside} ELSE {}
  IN UNION {LocalRefs(b) : b \in bodies \cup {Obj(Del(x[2], {"components"}))}} \subseteq inside
=============================================================================
