------------------------------- MODULE Reflect -------------------------------
(***************************************************************************)
(* JSON Schema of Go types, as documents describe them.                    *)
(*                                                                         *)
(* A Go type is a record:                                                  *)
(*   [k |-> "basic", b |-> "int"]        [k |-> "ptr", e |-> T]            *)
(*   [k |-> "slice", e |-> T]            [k |-> "map", e |-> T]            *)
(*   [k |-> "struct", f |-> fields]      [k |-> "named", n |-> "Leaf"]     *)
(*   [k |-> "file"] (multipart.File)     [k |-> "fileh"] (FileHeader)      *)
(*   [k |-> "none"]  no structure at all                                   *)
(* A field is [n |-> Go name, t |-> type, tags |-> tag name -> text,       *)
(*   emb |-> embedded?, vals |-> parsed default/example/const values].     *)
(*                                                                         *)
(* Types is the table of named types:                                      *)
(*   name -> [def |-> type, raw |-> default definition name,               *)
(*            tr |-> traits (desc, title, enum, forceBody, forceJSON)].    *)
(*                                                                         *)
(* A reflection context rc says which tags name properties and how.        *)
(***************************************************************************)
EXTENDS SchemaConv, Json, IOUtils

\* A definition and not a constant parameter: TLC reads it once.
Types == ndJsonDeserialize(IOEnv.VH_TYPES)[1]
\* Whether JSON schemas take fields without tags, an option of the reflector.
Untagged == ndJsonDeserialize(IOEnv.VH_TYPES)[2].pwt
\* Whether schemas are written in place instead of referring to components.
InPlace == ndJsonDeserialize(IOEnv.VH_TYPES)[2].inl
\* Put in front of the names of components by the user.
NamePrefix == ndJsonDeserialize(IOEnv.VH_TYPES)[2].ren

NoType == [k |-> "none"]
NoField == [n |-> "", t |-> NoType, tags |-> Empty, emb |-> FALSE, vals |-> Empty]
FV(f, v) == Get(f.vals, v, Null)

\* Context of JSON bodies; the other ones are made from it.
JSONCtx(v31) == [tag |-> "json", add |-> <<>>, map |-> Empty, unn |-> FALSE, form |-> FALSE,
                 embed |-> TRUE, inl |-> InPlace, body |-> TRUE, v31 |-> v31, files |-> FALSE,
                 pwt |-> Untagged]
FormCtx(v31, m) == [JSONCtx(v31) EXCEPT !.tag = "formData", !.add = <<"form">>, !.map = m, !.form = TRUE, !.files = TRUE]
ParamCtx(v31, in, m) == [JSONCtx(v31) EXCEPT !.tag = in, !.add = IF in = "query" THEN <<"form">> ELSE <<>>,
                                             !.map = m, !.unn = TRUE, !.embed = FALSE, !.body = FALSE, !.pwt = FALSE]
HeaderCtx(v31, m) == [JSONCtx(v31) EXCEPT !.tag = "header", !.map = m, !.inl = TRUE, !.body = FALSE, !.pwt = FALSE]

-----------------------------------------------------------------------------
(* Shapes.                                                                 *)
RECURSIVE Deref(_)
Deref(T) == IF T.k = "ptr" THEN Deref(T.e) ELSE T
RECURSIVE Under(_)
\* Underlying unnamed, pointer-free type.
Under(T) == IF T.k = "ptr" THEN Under(T.e) ELSE IF T.k = "named" THEN Under(Types[T.n].def) ELSE T

IsStructT(T) == Under(T).k = "struct"
IsSliceOrMap(T) == Under(T).k \in {"slice", "map"} \/ (Under(T).k = "basic" /\ Under(T).b \in {"bytes", "raw"})

TagName(tag) == Before(tag, ",")

\* A structure made up at run time: its fields are data, not Go fields.
IsVirtual(T) == LET d == Deref(T) IN d.k = "named" /\ Has(Types[d.n].tr, "virt")

RECURSIVE VirtualIn(_, _)
\* A field of such a structure, at any depth.
VirtualIn(T, seen) ==
  LET u == Under(T)
  IN u.k = "struct" /\ T \notin seen /\ \E i \in DOMAIN u.f : IsVirtual(u.f[i].t) \/ VirtualIn(Deref(u.f[i].t), seen \cup {T})
\* The type is sent as JSON because of it.
HasVirtual(T) ==
  IF T.k = "none" THEN FALSE
  ELSE IF IsVirtual(T) THEN \E i \in DOMAIN Under(T).f : Has(Under(T).f[i].tags, "json")
  ELSE VirtualIn(Deref(T), {})

RECURSIVE EmbeddedColl0(_)
EmbeddedColl0(T) ==
  LET u == Under(T)
  IN IF u.k # "struct" THEN NoType
     ELSE LET cand == SelectSeq(u.f, LAMBDA f : f.emb /\ (IsSliceOrMap(f.t) \/ EmbeddedColl0(f.t) # NoType))
          IN IF cand = <<>> THEN NoType
             ELSE IF IsSliceOrMap(cand[1].t) THEN cand[1].t ELSE EmbeddedColl0(cand[1].t)
\* Tables over the named types are only there for speed.
EmbeddedTab == TLCEval([n \in DOMAIN Types |-> EmbeddedColl0([k |-> "named", n |-> n])])
\* First slice or map type embedded in a structure, NoType if there is none.
EmbeddedColl(T) == IF T.k = "named" THEN EmbeddedTab[T.n] ELSE EmbeddedColl0(T)

RECURSIVE HasTagged0(_, _)
HasTagged0(T, tag) ==
  LET u == Under(T)
  IN u.k = "struct" /\ ~IsVirtual(T) /\ \E i \in DOMAIN u.f :
       LET f == u.f[i]
           nm == TagName(Get(f.tags, tag, ""))
       IN IF f.emb THEN nm # "-" /\ HasTagged0(f.t, tag) ELSE nm \notin {"", "-"}

TagKeys == {"json", "formData", "form", "query", "path", "cookie", "header"}
TaggedTab == TLCEval([tag \in TagKeys |-> TLCEval([n \in DOMAIN Types |-> HasTagged0([k |-> "named", n |-> n], tag)])])
\* The structure has a top-level or embedded field named by the tag.
HasTagged(T, tag) == IF T.k = "named" /\ tag \in TagKeys THEN TaggedTab[tag][T.n] ELSE HasTagged0(T, tag)

RECURSIVE TaggedValues(_, _)
\* Values of the tag on top-level and embedded fields, in order.
TaggedValues(T, tag) ==
  LET u == Under(T)
      one(f) == LET nm == TagName(Get(f.tags, tag, ""))
                IN IF f.emb THEN IF nm = "-" THEN <<>> ELSE TaggedValues(f.t, tag)
                   ELSE IF nm \in {"", "-"} THEN <<>> ELSE <<nm>>
  IN IF u.k # "struct" \/ IsVirtual(T) THEN <<>> ELSE Concat(SeqMap(one, u.f))

\* Tag that names the field in the context: [found, tag].
PropTag(rc, f) ==
  LET more == SelectSeq(rc.add, LAMBDA t : Has(f.tags, t))
  IN IF Has(rc.map, f.n) THEN [found |-> TRUE, tag |-> rc.map[f.n]]
     ELSE IF Has(f.tags, rc.tag) THEN [found |-> TRUE, tag |-> f.tags[rc.tag]]
     ELSE IF more # <<>> THEN [found |-> TRUE, tag |-> f.tags[more[1]]]
     ELSE [found |-> FALSE, tag |-> ""]

\* An embedded structure that is referred to instead of being flattened.
Referred(f) == f.emb /\ Get(f.tags, "refer", "") = "true" /\ IsStructT(f.t)

RECURSIVE Fields0(_, _)
Fields0(T, rc) ==
  LET u == Under(T)
      one(f) == LET pt == PropTag(rc, f)
                    nm == TagName(pt.tag)
                IN IF pt.tag = "-" THEN <<>>
                   ELSE IF nm = "" /\ f.emb /\ IsStructT(f.t) THEN IF Referred(f) THEN <<>> ELSE Fields0(f.t, rc)
                   ELSE IF f.n = "_" THEN IF ~rc.unn \/ pt.found THEN <<[p |-> FALSE, f |-> f, name |-> "_", omit |-> FALSE]>> ELSE <<>>
                   ELSE IF ~pt.found /\ ~rc.pwt THEN <<>>
                   ELSE <<[p |-> TRUE, f |-> f, name |-> IF nm = "" THEN f.n ELSE nm, omit |-> HasSub(pt.tag, ",omitempty")]>>
  IN IF u.k # "struct" THEN <<>> ELSE Concat(SeqMap(one, u.f))
FieldCtxs == {JSONCtx(TRUE), FormCtx(TRUE, Empty), HeaderCtx(TRUE, Empty)} \cup {ParamCtx(TRUE, in, Empty) : in \in {"query", "path", "cookie", "header"}}
FieldsTab == TLCEval([k \in {<<rc.tag, rc.unn>> : rc \in FieldCtxs} |->
                TLCEval([n \in DOMAIN Types |-> TLCEval(Fields0([k |-> "named", n |-> n], CHOOSE rc \in FieldCtxs : <<rc.tag, rc.unn>> = k))])])
\* Fields of the structure seen by the context, embedded ones in place:
\* [p |-> property?, f |-> field, name |-> property name, omit |-> omitempty].
Fields(T, rc) == IF T.k = "named" /\ rc.map = Empty THEN FieldsTab[<<rc.tag, rc.unn>>][T.n] ELSE Fields0(T, rc)
RECURSIVE Referrals(_, _)
\* Embedded structures that are referred to.
Referrals(T, rc) ==
  LET u == Under(T)
      one(f) == IF PropTag(rc, f).tag = "-" \/ TagName(PropTag(rc, f).tag) # "" THEN <<>>
                ELSE IF Referred(f) THEN <<f>> ELSE IF f.emb /\ IsStructT(f.t) THEN Referrals(f.t, rc) ELSE <<>>
  IN IF u.k # "struct" THEN <<>> ELSE Concat(SeqMap(one, u.f))
Props(T, rc) == SelectSeq(Fields(T, rc), LAMBDA e : e.p)
Confs(T, rc) == SelectSeq(Fields(T, rc), LAMBDA e : ~e.p)

-----------------------------------------------------------------------------
(* Schema construction helpers; a schema under construction is a function. *)
AddType(s, t) ==
  LET have == IF Has(s, "type") THEN TypeList(s["type"]) ELSE <<>>
  IN IF t \in Range0(have) THEN s
     ELSE Put(s, "type", IF have = <<>> THEN Str(t) ELSE Arr(SeqMap(Str, Append(have, t))))
DropType(s, t) ==
  LET rest == SelectSeq(IF Has(s, "type") THEN TypeList(s["type"]) ELSE <<>>, LAMBDA x : x # t)
  IN IF rest = <<>> THEN Del(s, {"type"})
     ELSE Put(s, "type", IF Len(rest) = 1 THEN Str(rest[1]) ELSE Arr(SeqMap(Str, rest)))
HasType(s, t) == t \in TypeNames(s)

StrTags == {"title", "description", "pattern", "format", "contentMediaType", "contentEncoding"}
NumTags == {"multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum",
            "maxLength", "minLength", "maxItems", "minItems", "maxProperties", "minProperties"}
BoolTags == {"uniqueItems", "readOnly", "writeOnly", "deprecated"}
FromTags(s, tags, pre) ==
  LET str == {t \in StrTags : Has(tags, pre \o t)}
      num == {t \in NumTags : Has(tags, pre \o t)}
      boo == {t \in BoolTags : Has(tags, pre \o t)}
  IN Over(s, [t \in str \cup num \cup boo |->
       IF t \in str THEN Str(tags[pre \o t]) ELSE IF t \in num THEN Num(tags[pre \o t]) ELSE Bool(tags[pre \o t] = "true")])

Ints == {"int", "int8", "int16", "int32", "int64"}
Uints == {"uint", "uint8", "uint16", "uint32", "uint64"}
Floats == {"float32", "float64"}

\* Typed values of a comma-separated enum tag for a direct value of the basic type.
EnumOf(T, text) ==
  LET u == IF T.k = "named" THEN Types[T.n].def ELSE T
      num == u.k = "basic" /\ u.b \in Ints \cup Uints \cup Floats
      one(x) == IF num THEN Num(x) ELSE Str(x)
  IN Arr(SeqMap(one, Split(text, ",")))
WithEnum(s, f, pre, T) ==
  LET tr == IF Deref(T).k = "named" THEN Types[Deref(T).n].tr ELSE Empty
      s1 == IF Has(tr, "enum") THEN Put(s, "enum", tr["enum"]) ELSE s
  IN IF Get(f.tags, pre \o "enum", "") # "" THEN Put(s1, "enum", EnumOf(T, f.tags[pre \o "enum"])) ELSE s1

Scalar(b, direct) ==
  CASE b = "bool" -> "type" :> Str("boolean")
    [] b \in Ints -> PutIf(direct /\ b \in {"int32", "int64"}, "type" :> Str("integer"), "format", Str(b))
    [] b \in Uints -> ("type" :> Str("integer")) @@ ("minimum" :> Num("0"))
    [] b \in Floats -> PutIf(direct, "type" :> Str("number"), "format", Str(IF b = "float32" THEN "float" ELSE "double"))
    [] b = "string" -> "type" :> Str("string")
    [] b = "text" -> "type" :> Str("string")
    [] b = "time" -> ("type" :> Str("string")) @@ ("format" :> Str("date-time"))
    [] b = "date" -> ("type" :> Str("string")) @@ ("format" :> Str("date"))
    [] b = "bytes" -> ("type" :> Str("string")) @@ ("format" :> Str("base64"))
    [] b \in {"any", "raw"} -> Empty

-----------------------------------------------------------------------------
(* Named types and components.                                             *)
FormTagged(T) == HasTagged(T, "formData") \/ HasTagged(T, "form")
RawTab == TLCEval([n \in DOMAIN Types |->
            KeepChars((IF Has(Types[n].tr, "virt") \/ Has(Types[n].tr, "around") THEN "" ELSE NamePrefix) \o Types[n].raw, NameChars)])
DefName(n, rc) == (IF rc.form /\ FormTagged([k |-> "named", n |-> n]) THEN "FormData" ELSE "") \o RawTab[n]

\* A named type whose schema is a scalar without constraints has no component.
TrivialScalar(n) ==
  LET d == Types[n].def
  IN d.k = "basic" /\ d.b \in {"bool", "int", "int8", "int16", "string", "any", "text"} \cup Uints
FileDef == "MultipartFileHeader"
FileDef0 == "MultipartFile"

IsComponent(T, rc) ==
  ~rc.inl /\ ((T.k = "named" /\ ~TrivialScalar(T.n) /\ ~Has(Types[T.n].tr, "inline")) \/ (T.k \in {"file", "fileh"} /\ rc.files))
CompName(T, rc) == IF T.k = "named" THEN DefName(T.n, rc) ELSE KeepChars(NamePrefix, NameChars) \o (IF T.k = "fileh" THEN FileDef ELSE FileDef0)
FileBody(rc) == PutIf(rc.v31, ("type" :> Str("string")) @@ ("format" :> Str("binary")), "contentMediaType", Str("application/octet-stream"))

RECURSIVE Refl(_, _, _, _, _)
RECURSIVE Body(_, _, _, _)
RECURSIVE StructBody(_, _)
RECURSIVE PropSchema(_, _)
RECURSIVE Combined(_, _, _)

\* Schema of a value of type T; direct is false behind a pointer, f and pre
\* are the field and tag prefix items of collections take constraints from.
Refl(T, rc, direct, f, pre) ==
  IF T.k = "ptr"
  THEN LET s == Refl(T.e, rc, FALSE, f, pre)
       IN IF Has(s, "$ref") \/ s = Empty \/ ~Has(s, "type") THEN s
          ELSE IF T.e.k = "fileh" \/ (IsStructT(T.e) /\ EmbeddedColl(T.e) = NoType) THEN s
          ELSE Put(s, "type", Arr(SeqMap(Str, <<"null">> \o TypeList(s["type"]))))
  ELSE IF IsComponent(T, rc) THEN "$ref" :> Str(RefPrefix \o CompName(T, rc))
  ELSE Body(T, rc, f, <<direct, pre>>)

\* Unnamed fields of a structure win over title and description of its type.
Titles(s, n) ==
  LET tr == Types[n].tr
  IN Over(Over(IF Has(tr, "desc") THEN "description" :> Str(tr["desc"]) ELSE Empty,
               IF Has(tr, "title") THEN "title" :> Str(tr["title"]) ELSE Empty), s)

\* Schema of T itself, never a reference to T.
Body(T, rc, f, dp) ==
  LET items(e, px) ==
        LET s == Refl(e, rc, TRUE, f, px)
        IN IF f.n = "" \/ Has(s, "$ref") THEN s ELSE WithEnum(FromTags(s, f.tags, px), f, px, e)
  IN CASE T.k = "basic" -> Scalar(T.b, dp[1])
       [] T.k = "slice" -> ("type" :> Str("array")) @@ ("items" :> Obj(items(T.e, dp[2] \o "items.")))
       [] T.k = "map" -> ("type" :> Str("object")) @@ ("additionalProperties" :> Obj(items(T.e, dp[2] \o "additionalProperties.")))
       [] T.k = "struct" -> IF rc.embed /\ EmbeddedColl(T) # NoType THEN Body(Under(EmbeddedColl(T)), rc, f, dp)
                            ELSE StructBody(T, rc)
       [] T.k = "named" -> Titles(Combined(Body(Types[T.n].def, rc, f, dp), T.n, rc), T.n)
       [] T.k \in {"file", "fileh"} -> IF rc.files THEN FileBody(rc) ELSE Empty

\* Alternatives and the negation that a type declares for itself.
Combined(s, n, rc) ==
  LET tr == Types[n].tr
      one(T) == Obj(Refl(T, rc, TRUE, NoField, ""))
      put(acc, kw) == IF ~Has(tr, kw) THEN acc
                      ELSE IF kw = "not" THEN Put(acc, kw, one(tr[kw]))
                      ELSE Put(acc, kw, Arr(SeqMap(one, tr[kw]) \o (IF Has(acc, kw) THEN acc[kw][2] ELSE <<>>)))
  IN FoldLeft(put, s, <<"oneOf", "anyOf", "allOf", "not">>)

StructBody(T, rc) ==
  LET es == Fields(T, rc)
      ps == SelectSeq(es, LAMBDA e : e.p)
      names == {ps[i].name : i \in DOMAIN ps}
      last(nm) == CHOOSE i \in DOMAIN ps : ps[i].name = nm /\ \A j \in DOMAIN ps : ps[j].name = nm => j <= i
      req == SelectSeq(ps, LAMBDA e : Get(e.f.tags, "required", "false") = "true")
      s0 == "type" :> Str("object")
      s1 == IF names = {} THEN s0 ELSE Put(s0, "properties", Obj([nm \in names |-> Obj(PropSchema(ps[last(nm)], rc))]))
      s2a == IF req = <<>> THEN s1 ELSE Put(s1, "required", Arr([i \in DOMAIN req |-> Str(req[i].name)]))
      rf == Referrals(T, rc)
      s2 == IF rf = <<>> THEN s2a ELSE Put(s2a, "allOf", Arr([i \in DOMAIN rf |-> Obj(Refl(rf[i].t, rc, TRUE, NoField, ""))]))
      conf(acc, e) == \* unnamed fields configure the schema of the structure
        LET a == FromTags(acc, e.f.tags, "")
        IN IF Has(e.f.tags, "additionalProperties") THEN Put(a, "additionalProperties", Bool(e.f.tags["additionalProperties"] = "true")) ELSE a
  IN FoldLeft(conf, s2, SelectSeq(es, LAMBDA e : ~e.p))

PropSchema(e, rc) ==
  LET f == e.f
      isPtr == f.t.k = "ptr"
      fileT == rc.files /\ Under(f.t).k \in {"file", "fileh"}
      sl == rc.files /\ f.t.k = "slice" /\ Deref(f.t.e).k \in {"file", "fileh"}
      s0 == Refl(f.t, rc, TRUE, f, "")
      ref == Has(s0, "$ref")
      s1 == IF ref THEN s0
            ELSE IF Has(f.tags, "nullable")
                 THEN IF f.tags["nullable"] = "true" THEN AddType(s0, "null") ELSE DropType(s0, "null")
            ELSE IF e.omit THEN s0
            ELSE LET a == IF HasType(s0, "array") \/ (HasType(s0, "object") /\ ~Has(s0, "properties"))
                          THEN AddType(s0, "null") ELSE s0
                     b == IF isPtr /\ Has(a, "type") THEN AddType(a, "null") ELSE a
                 IN IF sl THEN DropType(b, "null") ELSE b
      s2 == IF Has(f.vals, "default") THEN Put(s1, "default", f.vals["default"]) ELSE s1
      s3 == IF Has(f.vals, "const") THEN Put(s2, "const", f.vals["const"]) ELSE s2
      s4 == FromTags(s3, f.tags, "")
      exs == (IF Has(f.vals, "example") THEN <<f.vals["example"]>> ELSE <<>>)
             \o (IF Has(f.vals, "examples") THEN f.vals["examples"][2] ELSE <<>>)
      s5 == IF exs # <<>> THEN Put(s4, "examples", Arr(exs)) ELSE s4
  IN IF ref THEN s5 ELSE WithEnum(s5, f, "", f.t)

\* Full schema of T (not a reference), unnamed fields applied.
Full(T, rc) ==
  LET d == Deref(T)
      s1 == Body(d, rc, NoField, <<T.k # "ptr", "">>)
  IN IF T.k = "ptr" /\ ~(IsStructT(d) /\ EmbeddedColl(d) = NoType) /\ Has(s1, "type") /\ ~HasType(s1, "null")
     THEN Put(s1, "type", Arr(SeqMap(Str, <<"null">> \o TypeList(s1["type"])))) ELSE s1

\* Schema of a root value: a reference when the type has a component.
RootRef(T, rc) ==
  IF T.k = "none" \/ Deref(T).k = "none" THEN Empty
  ELSE IF IsComponent(Deref(T), rc) THEN "$ref" :> Str(RefPrefix \o CompName(Deref(T), rc))
  ELSE Full(T, rc)

-----------------------------------------------------------------------------
(* Components a schema needs.                                              *)
RECURSIVE Direct(_, _)
\* Component types in the alternatives a type declares.
Declared(n, rc) ==
  LET tr == Types[n].tr
      of(kw) == IF ~Has(tr, kw) THEN {} ELSE IF kw = "not" THEN Direct(tr[kw], rc) ELSE UNION {Direct(tr[kw][i], rc) : i \in DOMAIN tr[kw]}
  IN UNION {of(kw) : kw \in {"oneOf", "anyOf", "allOf", "not"}}
\* Component types referred to by the schema of T, not looking into them.
Direct(T, rc) ==
  IF T.k = "none" THEN {}
  ELSE IF T.k = "ptr" THEN Direct(T.e, rc)
  ELSE IF IsComponent(T, rc) THEN {T}
  ELSE IF T.k = "named" THEN Direct(Types[T.n].def, rc) \cup Declared(T.n, rc)
  ELSE IF T.k \in {"slice", "map"} THEN Direct(T.e, rc)
  ELSE IF T.k = "struct"
       THEN IF rc.embed /\ EmbeddedColl(T) # NoType THEN Direct(Under(EmbeddedColl(T)), rc)
            ELSE LET ps == Props(T, rc)
                     rf == Referrals(T, rc)
                 IN UNION {Direct(ps[i].f.t, rc) : i \in DOMAIN ps} \cup UNION {Direct(rf[i].t, rc) : i \in DOMAIN rf}
  ELSE {}
Inside0(T, rc) ==
  IF T.k \in {"file", "fileh"} THEN {} ELSE Direct(Under(T), rc) \cup (IF T.k = "named" THEN Declared(T.n, rc) ELSE {})

JInside == TLCEval([n \in DOMAIN Types |-> TLCEval(Inside0([k |-> "named", n |-> n], JSONCtx(TRUE)))])
Inside(T, rc) == IF rc.tag = "json" /\ ~rc.files /\ T.k = "named" THEN JInside[T.n] ELSE Inside0(T, rc)

RECURSIVE Close(_, _, _)
Close(todo, seen, rc) ==
  IF todo = {} THEN seen
  ELSE Close(UNION {Inside(T, rc) : T \in todo} \ (seen \cup todo), seen \cup todo, rc)

CompBody0(T, rc) ==
  LET s == IF T.k = "named" THEN Obj(Full(T, rc)) ELSE Obj(FileBody(rc))
  IN IF rc.v31 THEN s ELSE ToOAS(s)
J30 == TLCEval([n \in DOMAIN Types |-> TLCEval(CompBody0([k |-> "named", n |-> n], JSONCtx(FALSE)))])
J31 == TLCEval([n \in DOMAIN Types |-> TLCEval(CompBody0([k |-> "named", n |-> n], JSONCtx(TRUE)))])
\* In the schema language of the document.
CompBody(T, rc) ==
  IF rc.tag = "json" /\ ~rc.files /\ T.k = "named" THEN IF rc.v31 THEN J31[T.n] ELSE J30[T.n] ELSE CompBody0(T, rc)
\* Component name -> schema for the component types in Ts and all they need.
CompsOf(Ts, rc) ==
  LET all == Close(Ts, {}, rc)
      names == {CompName(T, rc) : T \in all}
  IN [nm \in names |-> CompBody(CHOOSE T \in all : CompName(T, rc) = nm, rc)]

\* Components for a root value; withRoot says whether the root is one itself.
RootComps(T, rc, withRoot) ==
  IF T.k = "none" THEN Empty
  ELSE CompsOf(IF withRoot THEN Direct(Deref(T), rc) ELSE Inside(Deref(T), rc), rc)
=============================================================================
