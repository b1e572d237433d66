-------------------------------- MODULE Oper --------------------------------
(***************************************************************************)
(* What an operation documents: parameters, request body and responses of  *)
(* its content units, for OpenAPI 3.0 ("3") and 3.1 ("31").                *)
(*                                                                         *)
(* A content unit is [t |-> type, ct |-> content type, fmt |-> format,     *)
(*   desc |-> description, map |-> location -> Go field -> name,           *)
(*   status |-> number, dflt |-> default response?, ref |-> reference,     *)
(*   cust |-> description given by a customizing function,                 *)
(*   bad |-> location whose field tags can not be read].                   *)
(***************************************************************************)
EXTENDS Reflect, PathT

MimeJSON == "application/json"
MimeForm == "application/x-www-form-urlencoded"
MimeMultipart == "multipart/form-data"
Locations == <<"query", "path", "cookie", "header">>

Is31(v) == v = "31"
SchemaJ(s, v) == IF Is31(v) THEN Obj(s) ELSE ToOAS(Obj(s))
\* OpenAPI 3.1 omits an empty schema (except in headers).
WithSchema(o, s, v) == IF Is31(v) /\ s = Empty THEN o ELSE Put(o, "schema", SchemaJ(s, v))
NoNullable(j) == Obj(Del(j[2], {"nullable"}))
StringSchema(fmt) == IF fmt = "" THEN "type" :> Str("string") ELSE ("type" :> Str("string")) @@ ("format" :> Str(fmt))
MediaJ(s, v) == Obj(WithSchema(Empty, s, v))

NoBody == [k |-> "none"]
EmptyOp == [meta |-> Empty, params |-> <<>>, body |-> NoBody, resps |-> Empty, sec |-> <<>>, ext |-> Empty]
BodyEns(op) == IF op.body.k = "body" THEN op.body ELSE [k |-> "body", desc |-> "", content |-> Empty]
PutContent(op, mime, s, v) == [op EXCEPT !.body = [BodyEns(op) EXCEPT !.content = Put(BodyEns(op).content, mime, MediaJ(s, v))]]

UMap(u, in) == Get(u.map, in, Empty)
RootTr(T) == IF Deref(T).k = "named" THEN Types[Deref(T).n].tr ELSE Empty
Forced(T, tr) == Has(RootTr(T), tr)

\* Accumulator of processing: op, comps, err.
Acc(op, comps) == [op |-> op, comps |-> comps, err |-> FALSE]
KeepComps(have, new) == have @@ new        \* present ones stay

-----------------------------------------------------------------------------
(* Request bodies.                                                         *)
BodyAllowed(m, T) == m \notin {"get", "head", "delete", "trace"} \/ Forced(T, "forceBody")

HasFormBody(u, m) ==
  /\ BodyAllowed(m, u.t)
  /\ FormTagged(u.t) \/ UMap(u, "formData") # Empty
HasJSONReq(u, m) ==
  /\ BodyAllowed(m, u.t)
  /\ ~FormTagged(u.t) \/ Forced(u.t, "forceJSON") \/ HasVirtual(u.t)
  /\ HasTagged(u.t, "json") \/ HasVirtual(u.t) \/ IsSliceOrMap(u.t) \/ EmbeddedColl(u.t) # NoType \/ (Untagged /\ u.t.k # "none")

RECURSIVE FileWithin(_, _)
\* Without components; there are no recursive types then.
FileWithin(T, rc) ==
  CASE T.k \in {"file", "fileh"} -> TRUE
    [] T.k \in {"ptr", "slice", "map"} -> FileWithin(T.e, rc)
    [] T.k \in {"named", "struct"} -> IF Under(T).k = "struct" THEN \E i \in DOMAIN Props(T, rc) : FileWithin(Props(T, rc)[i].f.t, rc)
                                     ELSE FileWithin(Under(T), rc)
    [] OTHER -> FALSE
FilesIn(T, rc) == IF InPlace THEN FileWithin(T, rc) ELSE \E X \in Close(Direct(Deref(T), rc), {}, rc) : X.k \in {"file", "fileh"}

FormBody(acc, u, m, v) ==
  LET rc == FormCtx(Is31(v), UMap(u, "formData"))
      mime == IF FilesIn(u.t, rc) THEN MimeMultipart ELSE MimeForm
  IN IF ~HasFormBody(u, m) THEN acc
     ELSE [acc EXCEPT !.op = PutContent(acc.op, mime, RootRef(u.t, rc), v),
                      !.comps = KeepComps(acc.comps, RootComps(u.t, rc, TRUE))]

\* In request bodies files are strings.
IsFile(T) == Deref(T).k \in {"file", "fileh"}
JSONReqCtx(T, v) ==
  LET ps == Props(T, JSONCtx(Is31(v)))
  IN [JSONCtx(Is31(v)) EXCEPT !.files = \E i \in DOMAIN ps : IsFile(ps[i].f.t) \/ (ps[i].f.t.k = "slice" /\ IsFile(ps[i].f.t.e))]
JSONBody(acc, u, m, v) ==
  LET rc == JSONReqCtx(u.t, v)
  IN IF ~HasJSONReq(u, m) THEN acc
     ELSE [acc EXCEPT !.op = PutContent(acc.op, MimeJSON, RootRef(u.t, rc), v),
                      !.comps = KeepComps(acc.comps, RootComps(u.t, rc, TRUE))]

RawBody(acc, u, v) ==
  [acc EXCEPT !.op = FoldLeft(LAMBDA op, mime : PutContent(op, mime, StringSchema(""), v), acc.op, TaggedValues(u.t, "contentType"))]

-----------------------------------------------------------------------------
(* Parameters.                                                             *)
\* Attributes of a parameter or header read from the field tags.
AttrTags(v, param) ==
  LET common == {"required", "deprecated", "explode"}
  IN IF v = "3" \/ param THEN common \cup {"allowEmptyValue", "allowReserved"} ELSE common
Attrs(o, tags, v, param) ==
  LET o1 == IF Has(tags, "description") THEN Put(o, "description", Str(tags["description"])) ELSE o
  IN Over(o1, [t \in {x \in AttrTags(v, param) : Has(tags, x)} |-> Bool(tags[t] = "true")])

\* A structure tagged for JSON but not for the location is sent as JSON.
AsJSON(f, in) == Get(f.tags, "collectionFormat", "") = "json" \/ (HasTagged(f.t, "json") /\ ~HasTagged(f.t, in))

IsObject(T, v) == HasType(Full(T, JSONCtx(Is31(v))), "object")

ParamJ(e, in, rc, v) ==
  LET f == e.f
      s == PropSchema(e, rc)
      js == AsJSON(f, in)
      cf == Get(f.tags, "collectionFormat", "")
      style == CASE cf = "csv" -> <<"form", FALSE>> [] cf = "ssv" -> <<"spaceDelimited", FALSE>>
                 [] cf = "pipes" -> <<"pipeDelimited", FALSE>> [] cf = "multi" -> <<"form", TRUE>> [] OTHER -> <<>>
      st == IF ~js /\ IsObject(f.t, v) THEN <<"deepObject", TRUE>> ELSE style
      jrc == JSONCtx(Is31(v))
      base == ("name" :> Str(e.name)) @@ ("in" :> Str(in))
      o1 == IF Has(s, "description") THEN Put(base, "description", s["description"]) ELSE base
      o2 == IF st = <<>> THEN o1 ELSE ("style" :> Str(st[1])) @@ ("explode" :> Bool(st[2])) @@ o1
      \* OpenAPI 3.0 parameters are nullable only when the field is a pointer.
      sj == IF f.t.k # "ptr" /\ v = "3" THEN NoNullable(SchemaJ(s, v)) ELSE SchemaJ(s, v)
      o3 == IF js THEN Put(o2, "content", Obj(MimeJSON :> MediaJ(RootRef([k |-> "ptr", e |-> f.t], jrc), v)))
            ELSE IF Is31(v) /\ s = Empty THEN o2 ELSE Put(o2, "schema", sj)
      o4 == Attrs(o3, f.tags, v, TRUE)
  IN Obj(IF in = "path" THEN Put(o4, "required", Bool(TRUE)) ELSE o4)

HasParam(op, name, in) == \E i \in DOMAIN op.params : ~Has(op.params[i][2], "$ref") /\ op.params[i][2]["name"] = Str(name) /\ op.params[i][2]["in"] = Str(in)

Forbidden(in) == "x-forbid-unknown-" \o in

ParamsIn(acc, u, in, v) ==
  LET rc == ParamCtx(Is31(v), in, UMap(u, in))
      jrc == JSONCtx(Is31(v))
      one(a, e) ==
        IF a.stop THEN a
        ELSE LET a1 == IF AsJSON(e.f, in)
                       THEN [a EXCEPT !.comps = KeepComps(a.comps, RootComps(e.f.t, jrc, TRUE))] ELSE a
             IN IF HasParam(a1.op, e.name, in) THEN [a1 EXCEPT !.stop = TRUE]
                ELSE [a1 EXCEPT !.op.params = Append(@, ParamJ(e, in, rc, v))]
      r == FoldLeft(one, [op |-> acc.op, comps |-> acc.comps, stop |-> FALSE], Props(u.t, rc))
      closed == Under(u.t).k = "struct" /\ \E i \in DOMAIN Confs(u.t, rc) : Get(Confs(u.t, rc)[i].f.tags, "additionalProperties", "true") = "false"
  IN IF u.t.k = "none" \/ IsSliceOrMap(u.t) THEN acc
     ELSE IF r.stop THEN [op |-> r.op, comps |-> r.comps, err |-> TRUE]
     ELSE [op |-> IF closed THEN [r.op EXCEPT !.ext = Put(r.op.ext, Forbidden(in), Bool(TRUE))] ELSE r.op,
           comps |-> KeepComps(r.comps, RootComps(u.t, rc, FALSE)),
           err |-> acc.err]

Params(acc, u, v) == FoldLeft(LAMBDA a, in : ParamsIn(a, u, in, v), acc, Locations)

-----------------------------------------------------------------------------
\* Whether an unreadable tag comes to light.
Bad(u) == Get(u, "bad", "")
Cust(u) == Get(u, "cust", "")
BadReq(u, m) ==
  LET param == u.ct \in {"", MimeJSON, MimeForm, MimeMultipart}
      body(cts) == u.ct \in cts /\ m \notin {"get", "head", "delete", "trace"}
  IN CASE Bad(u) = "" -> FALSE
       [] Bad(u) = "json" -> body({"", MimeJSON})
       [] Bad(u) = "formData" -> body({"", MimeForm, MimeMultipart})
       [] OTHER -> param \* a tag "form" is one of the query, too
BadResp(u, m) == Bad(u) = "header" \/ (Bad(u) = "json" /\ m # "head")

ReqUnit(acc, u, m, v) ==
  LET a1 == CASE u.ct = "" -> JSONBody(Params(FormBody(acc, u, m, v), u, v), u, m, v)
              [] u.ct = MimeJSON -> JSONBody(Params(acc, u, v), u, m, v)
              [] u.ct \in {MimeForm, MimeMultipart} -> Params(FormBody(acc, u, m, v), u, v)
              [] OTHER -> [acc EXCEPT !.op = PutContent(acc.op, u.ct, StringSchema(u.fmt), v)]
      a2 == IF u.ct = "" /\ ~a1.err THEN RawBody(a1, u, v) ELSE a1
      a3 == IF u.desc # "" /\ a2.op.body.k = "body" THEN [a2 EXCEPT !.op.body.desc = u.desc] ELSE a2
      a4 == IF u.ref # "" /\ a3.op.body.k # "none" THEN [a3 EXCEPT !.op.body = [k |-> "ref", ref |-> u.ref]] ELSE a3
      a5 == IF Cust(u) # "" /\ a4.op.body.k = "body" THEN [a4 EXCEPT !.op.body.desc = Cust(u)] ELSE a4
  IN IF acc.err THEN acc ELSE IF BadReq(u, m) THEN [acc EXCEPT !.err = TRUE] ELSE IF a1.err THEN a1 ELSE a5

SetupReq(acc, us, m, v) == FoldLeft(LAMBDA a, u : ReqUnit(a, u, m, v), acc, us)

-----------------------------------------------------------------------------
(* Responses.                                                              *)
StatusText(s) ==
  CASE s = 0 -> ""
    [] s = 100 -> "Continue"
    [] s = 101 -> "Switching Protocols"
    [] s = 102 -> "Processing"
    [] s = 103 -> "Early Hints"
    [] s = 200 -> "OK"
    [] s = 201 -> "Created"
    [] s = 202 -> "Accepted"
    [] s = 203 -> "Non-Authoritative Information"
    [] s = 204 -> "No Content"
    [] s = 205 -> "Reset Content"
    [] s = 206 -> "Partial Content"
    [] s = 207 -> "Multi-Status"
    [] s = 208 -> "Already Reported"
    [] s = 226 -> "IM Used"
    [] s = 300 -> "Multiple Choices"
    [] s = 301 -> "Moved Permanently"
    [] s = 302 -> "Found"
    [] s = 303 -> "See Other"
    [] s = 304 -> "Not Modified"
    [] s = 305 -> "Use Proxy"
    [] s = 307 -> "Temporary Redirect"
    [] s = 308 -> "Permanent Redirect"
    [] s = 400 -> "Bad Request"
    [] s = 401 -> "Unauthorized"
    [] s = 402 -> "Payment Required"
    [] s = 403 -> "Forbidden"
    [] s = 404 -> "Not Found"
    [] s = 405 -> "Method Not Allowed"
    [] s = 406 -> "Not Acceptable"
    [] s = 407 -> "Proxy Authentication Required"
    [] s = 408 -> "Request Timeout"
    [] s = 409 -> "Conflict"
    [] s = 410 -> "Gone"
    [] s = 411 -> "Length Required"
    [] s = 412 -> "Precondition Failed"
    [] s = 413 -> "Request Entity Too Large"
    [] s = 414 -> "Request URI Too Long"
    [] s = 415 -> "Unsupported Media Type"
    [] s = 416 -> "Requested Range Not Satisfiable"
    [] s = 417 -> "Expectation Failed"
    [] s = 418 -> "I'm a teapot"
    [] s = 421 -> "Misdirected Request"
    [] s = 422 -> "Unprocessable Entity"
    [] s = 423 -> "Locked"
    [] s = 424 -> "Failed Dependency"
    [] s = 425 -> "Too Early"
    [] s = 426 -> "Upgrade Required"
    [] s = 428 -> "Precondition Required"
    [] s = 429 -> "Too Many Requests"
    [] s = 431 -> "Request Header Fields Too Large"
    [] s = 451 -> "Unavailable For Legal Reasons"
    [] s = 500 -> "Internal Server Error"
    [] s = 501 -> "Not Implemented"
    [] s = 502 -> "Bad Gateway"
    [] s = 503 -> "Service Unavailable"
    [] s = 504 -> "Gateway Timeout"
    [] s = 505 -> "HTTP Version Not Supported"
    [] s = 506 -> "Variant Also Negotiates"
    [] s = 507 -> "Insufficient Storage"
    [] s = 508 -> "Loop Detected"
    [] s = 510 -> "Not Extended"
    [] s = 511 -> "Network Authentication Required"
    [] OTHER -> ""

StatusOf(u) == IF u.status = 0 /\ ~u.dflt THEN 200 ELSE u.status
StatusKey(u) == IF u.dflt THEN "default"
                ELSE IF StatusOf(u) \in 1..5 THEN ToString(StatusOf(u)) \o "XX" ELSE ToString(StatusOf(u))

NonConstraining == {"title", "description", "examples"}
HasJSONResp(T) ==
  LET rc == JSONCtx(TRUE)
      s == Full(T, rc)
      s1 == Del(s, NonConstraining \cup XKeys(s))
  IN T.k # "none" /\ (Direct(Deref(T), rc) \ {Deref(T)} # {} \/ Inside(Deref(T), rc) # {} \/ s1 \notin {Empty, "type" :> Str("object")})

HeaderJ(e, rc, v) ==
  LET s == PropSchema(e, rc)
      o0 == "style" :> Str("simple")
      o1 == IF Has(s, "description") THEN Put(o0, "description", s["description"]) ELSE o0
      o2 == IF Has(s, "deprecated") THEN Put(o1, "deprecated", s["deprecated"]) ELSE o1
  IN Obj(Attrs(Put(o2, "schema", SchemaJ(s, v)), e.f.tags, v, FALSE))

RespUnit(acc, u, m, v) ==
  LET key == StatusKey(u)
      mime == Before(u.ct, ";")
      have == IF Has(acc.op.resps, key) /\ acc.op.resps[key].k = "resp" THEN acc.op.resps[key]
              ELSE [k |-> "resp", desc |-> "", content |-> Empty, headers |-> Empty]
      rc == JSONCtx(Is31(v))
      hrc == HeaderCtx(Is31(v), UMap(u, "header"))
      body == m # "head" /\ HasJSONResp(u.t)
      root == RootRef(u.t, rc)
      rootJ == IF v = "3" THEN Obj(Put(Empty, "schema", NoNullable(ToOAS(Obj(root))))) ELSE MediaJ(root, v)
      c1 == IF body THEN Put(have.content, IF mime = "" THEN MimeJSON ELSE mime, rootJ) ELSE have.content
      ensure(c, mt, fmt) == IF Has(c, mt) THEN c ELSE Put(c, mt, MediaJ(StringSchema(fmt), v))
      c2 == IF m = "head" THEN c1 ELSE FoldLeft(LAMBDA c, mt : ensure(c, mt, ""), c1, TaggedValues(u.t, "contentType"))
      c3 == IF m # "head" /\ mime # "" THEN ensure(c2, mime, u.fmt) ELSE c2
      hs == IF u.t.k = "none" THEN <<>> ELSE Props(u.t, hrc)
      h1 == FoldLeft(LAMBDA h, e : Put(h, e.name, HeaderJ(e, hrc, v)), have.headers, hs)
      jdesc == IF body /\ Has(root, "description") THEN root["description"][2] ELSE ""
      full == IF u.t.k = "none" THEN Empty ELSE Full(u.t, hrc)
      hdesc == IF Has(full, "description") THEN full["description"][2] ELSE ""
      d0 == IF have.desc # "" THEN have.desc ELSE IF jdesc # "" THEN jdesc ELSE hdesc
      d1 == IF u.desc # "" THEN u.desc ELSE d0
      d2 == IF d1 # "" THEN d1 ELSE StatusText(StatusOf(u))
      resp == IF u.ref # "" THEN [k |-> "ref", ref |-> u.ref]
              ELSE [k |-> "resp", desc |-> IF Cust(u) # "" THEN Cust(u) ELSE d2, content |-> c3, headers |-> h1]
  IN IF acc.err THEN acc
     ELSE IF BadResp(u, m) THEN [acc EXCEPT !.err = TRUE]
     ELSE [acc EXCEPT !.op.resps = Put(acc.op.resps, key, resp),
                      !.comps = IF body THEN KeepComps(acc.comps, RootComps(u.t, rc, TRUE)) ELSE acc.comps]

SetupResp(acc, us, m, v) == FoldLeft(LAMBDA a, u : RespUnit(a, u, m, v), acc, us)

NoContent == [k |-> "resp", desc |-> "No Content", content |-> Empty, headers |-> Empty]
WithNoContent(op) == IF op.resps = Empty THEN [op EXCEPT !.resps = "204" :> NoContent] ELSE op

-----------------------------------------------------------------------------
(* An operation may be registered under a path iff its path parameters are *)
(* the placeholders and no two parameters share name and location.         *)
\* Parameters given by a reference are not looked into.
PIn(p) == IF Has(p[2], "$ref") THEN "$ref" ELSE p[2]["in"][2]
PName(p) == p[2]["name"][2]
ParamsMatch(params, names) ==
  /\ {PName(params[i]) : i \in {j \in DOMAIN params : PIn(params[j]) = "path"}} = names
  /\ \A i, j \in DOMAIN params : i # j /\ PIn(params[i]) # "$ref" => PIn(params[i]) # PIn(params[j]) \/ PName(params[i]) # PName(params[j])

-----------------------------------------------------------------------------
(* JSON form.                                                              *)
RefJ(r) == Obj("$ref" :> Str(r))
BodyJ(b) == IF b.k = "ref" THEN RefJ(b.ref)
            ELSE Obj(PutIf(b.desc # "", "content" :> Obj(b.content), "description", Str(b.desc)))
RespJ(r) ==
  IF r.k = "ref" THEN RefJ(r.ref)
  ELSE Obj(PutIf(r.headers # Empty, PutIf(r.content # Empty, "description" :> Str(r.desc), "content", Obj(r.content)), "headers", Obj(r.headers)))
RespsJ(op) == Obj([s \in DOMAIN op.resps |-> RespJ(op.resps[s])])
OpJ(op, v) ==
  LET o1 == PutIf(op.params # <<>>, op.meta, "parameters", Arr(op.params))
      o2 == IF op.body.k = "none" THEN o1 ELSE Put(o1, "requestBody", BodyJ(op.body))
      o3 == IF v = "31" /\ op.resps = Empty THEN o2 ELSE Put(o2, "responses", RespsJ(op))
      o4 == PutIf(op.sec # <<>>, o3, "security", Arr(op.sec))
  IN Obj(Over(o4, op.ext))
=============================================================================
