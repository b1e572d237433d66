-------------------------------- MODULE Valid --------------------------------
(***************************************************************************)
(* What schemas mean: validity of JSON values under a JSON Schema and      *)
(* under an OpenAPI 3.0 schema object.  Keywords that only annotate have   *)
(* no effect.  Numbers are integers.                                       *)
(***************************************************************************)
EXTENDS SchemaConv

TypeOf(v) == CASE IsNull(v) -> {"null"} [] IsBool(v) -> {"boolean"} [] IsStr(v) -> {"string"}
               [] IsArr(v) -> {"array"} [] IsObj(v) -> {"object"} [] IsNum(v) -> {"number", "integer"}
IntOf(v) == IntVal(v[2])
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]

\* Keywords both vocabularies share; V says how sub-schemas are judged.
RECURSIVE ValidJS(_, _)
RECURSIVE ValidOAS(_, _)
Sub(oas, s, v) == IF oas THEN ValidOAS(s, v) ELSE ValidJS(s, v)

Shared(f, v, oas) ==
  LET num(k, op(_, _)) == Has(f, k) /\ IsNum(v) => op(IntOf(v), IntOf(f[k]))
      leq(a, b) == a <= b
      geq(a, b) == a >= b
      len(k, is, op(_, _)) == Has(f, k) /\ is => op(IF IsObj(v) THEN Cardinality(DOMAIN v[2]) ELSE Len(v[2]), IntOf(f[k]))
      inProps(k) == Has(f, "properties") /\ Has(f["properties"][2], k)
  IN /\ Has(f, "enum") => \E i \in DOMAIN f["enum"][2] : f["enum"][2][i] = v
     /\ Has(f, "multipleOf") /\ IsNum(v) => IntOf(v) % IntOf(f["multipleOf"]) = 0
     /\ len("minLength", IsStr(v), geq) /\ len("maxLength", IsStr(v), leq)
     /\ len("minItems", IsArr(v), geq) /\ len("maxItems", IsArr(v), leq)
     /\ len("minProperties", IsObj(v), geq) /\ len("maxProperties", IsObj(v), leq)
     /\ Has(f, "uniqueItems") /\ True(f["uniqueItems"]) /\ IsArr(v) => Distinct(v[2])
     /\ Has(f, "required") /\ IsObj(v) => \A i \in DOMAIN f["required"][2] : Has(v[2], f["required"][2][i][2])
     /\ Has(f, "not") => ~Sub(oas, f["not"], v)
     /\ Has(f, "allOf") => \A i \in DOMAIN f["allOf"][2] : Sub(oas, f["allOf"][2][i], v)
     /\ Has(f, "anyOf") => \E i \in DOMAIN f["anyOf"][2] : Sub(oas, f["anyOf"][2][i], v)
     /\ Has(f, "oneOf") => Cardinality({i \in DOMAIN f["oneOf"][2] : Sub(oas, f["oneOf"][2][i], v)}) = 1
     /\ Has(f, "items") /\ IsArr(v) => \A i \in DOMAIN v[2] : Sub(oas, f["items"], v[2][i])
     /\ Has(f, "properties") /\ IsObj(v) => \A k \in DOMAIN v[2] : inProps(k) => Sub(oas, f["properties"][2][k], v[2][k])
     /\ Has(f, "additionalProperties") /\ IsObj(v) =>
          \A k \in DOMAIN v[2] : ~inProps(k) =>
            (IF IsBool(f["additionalProperties"]) THEN f["additionalProperties"][2] ELSE Sub(oas, f["additionalProperties"], v[2][k]))

ValidJS(s, v) ==
  IF IsBool(s) THEN s[2]
  ELSE LET f == s[2] IN
       /\ Has(f, "type") => TypeOf(v) \cap TypeNames(f) # {}
       /\ Has(f, "minimum") /\ IsNum(v) => IntOf(v) >= IntOf(f["minimum"])
       /\ Has(f, "maximum") /\ IsNum(v) => IntOf(v) <= IntOf(f["maximum"])
       /\ Has(f, "exclusiveMinimum") /\ IsNum(v) => IntOf(v) > IntOf(f["exclusiveMinimum"])
       /\ Has(f, "exclusiveMaximum") /\ IsNum(v) => IntOf(v) < IntOf(f["exclusiveMaximum"])
       /\ Shared(f, v, FALSE)

\* Null alone is written as nullable without a type.
ValidOAS(s, v) ==
  LET f == s[2]
      nullable == Has(f, "nullable") /\ True(f["nullable"])
      strict(k) == Has(f, k) /\ True(f[k])
  IN /\ IF Has(f, "type") THEN f["type"][2] \in TypeOf(v) \/ (nullable /\ IsNull(v)) ELSE nullable => IsNull(v)
     /\ Has(f, "minimum") /\ IsNum(v) => IF strict("exclusiveMinimum") THEN IntOf(v) > IntOf(f["minimum"]) ELSE IntOf(v) >= IntOf(f["minimum"])
     /\ Has(f, "maximum") /\ IsNum(v) => IF strict("exclusiveMaximum") THEN IntOf(v) < IntOf(f["maximum"]) ELSE IntOf(v) <= IntOf(f["maximum"])
     /\ Shared(f, v, TRUE)
=============================================================================
