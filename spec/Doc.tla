--------------------------------- MODULE Doc ---------------------------------
(***************************************************************************)
(* An OpenAPI document under construction: the state of one reflector and  *)
(* its document, and every public call that changes or reads it.           *)
(*                                                                         *)
(* Step(st, e, keep) is the transition of call e.  Calls are               *)
(* deterministic, except that a rejected registration may leave component  *)
(* schemas of its own types behind; keep is the set of names it leaves.    *)
(***************************************************************************)
EXTENDS Oper

InitInfo == ("title" :> Str("")) @@ ("version" :> Str(""))
InitDoc(v) == [v |-> v, paths |-> Empty, hooks |-> Empty, comps |-> Empty, secs |-> Empty, info |-> InitInfo, ctxs |-> Empty]

Taken(st, m, p) == Has(st.paths, p) /\ Has(st.paths[p], m)
Entry(op, v) == [op |-> op, j |-> OpJ(op, v)]
PutOp(st, m, p, op) == [st EXCEPT !.paths = Put(st.paths, p, Put(Get(st.paths, p, Empty), m, Entry(op, st.v)))]
PutHook(st, m, n, op) == [st EXCEPT !.hooks = Put(st.hooks, n, m :> Entry(op, st.v))]

Res(st, ok) == [st |-> st, ok |-> ok, out |-> Empty]
ResOut(st, ok, out) == [st |-> st, ok |-> ok, out |-> out]

-----------------------------------------------------------------------------
(* Operation contexts.                                                     *)
NewOp(st, e) ==
  LET s == Sanitize(e.m, e.p)
      ok == s.ok /\ ~Taken(st, s.method, s.path)
      ctx == [m |-> s.method, p |-> s.path, names |-> Range0(s.names), op |-> EmptyOp, reqs |-> <<>>, resps |-> <<>>]
  IN ResOut(IF ok THEN [st EXCEPT !.ctxs = Put(st.ctxs, e.c, ctx)] ELSE st, ok,
            IF ok THEN [method |-> s.method, path |-> s.path] ELSE Empty)

MetaKey == [tags |-> "tags", summary |-> "summary", description |-> "description", id |-> "operationId", deprecated |-> "deprecated"]
\* What the getters of a context return.
Getters(op) ==
  [tags |-> Get(op.meta, "tags", Arr(<<>>)), summary |-> Get(op.meta, "summary", Str("")),
   description |-> Get(op.meta, "description", Str("")), id |-> Get(op.meta, "operationId", Str("")),
   deprecated |-> Get(op.meta, "deprecated", Bool(FALSE))]
SetMeta(st, e) ==
  LET op == st.ctxs[e.c].op
      \* An empty list of tags is the same as no tags.
      meta == IF e.f = "tags" /\ e.v = Arr(<<>>) THEN Del(op.meta, {"tags"}) ELSE Put(op.meta, MetaKey[e.f], e.v)
      op2 == [op EXCEPT !.meta = meta]
  IN ResOut([st EXCEPT !.ctxs[e.c].op = op2], TRUE, Getters(op2))

AddSec(st, e) ==
  Res([st EXCEPT !.ctxs[e.c].op.sec = Append(@, Obj(e.name :> Arr(SeqMap(Str, e.scopes))))], TRUE)

AddReq(st, e) == Res([st EXCEPT !.ctxs[e.c].reqs = Append(@, e.u)], TRUE)
AddResp(st, e) == Res([st EXCEPT !.ctxs[e.c].resps = Append(@, e.u)], TRUE)

\* A parameter declared by hand: [name, in], or a reference to a shared one.
HandParam(p) ==
  LET o == ("name" :> Str(p.name)) @@ ("in" :> Str(p.in)) @@ ("schema" :> Obj("type" :> Str("string")))
  IN IF p.in = "ref" THEN RefJ("#/components/parameters/" \o p.name) ELSE Obj(PutIf(p.in = "path", o, "required", Bool(TRUE)))
OpParam(st, e) == Res([st EXCEPT !.ctxs[e.c].op.params = Append(@, HandParam(e))], TRUE)

-----------------------------------------------------------------------------
(* Registration.                                                           *)
\* The operation a context describes, and the components it needs.
Built(st, c) ==
  LET x == st.ctxs[c]
      a1 == SetupReq(Acc(x.op, st.comps), x.reqs, x.m, st.v)
      ok == ~a1.err /\ ParamsMatch(a1.op.params, x.names)
      a2 == SetupResp(a1, x.resps, x.m, st.v)
  IN [ok |-> ok /\ ~a2.err, op |-> WithNoContent(a2.op), comps |-> a2.comps]

\* Components of the types of a context that a rejected call may leave.
Leftover(st, c, keep) ==
  LET x == st.ctxs[c]
      a == SetupResp([SetupReq(Acc(EmptyOp, Empty), x.reqs, x.m, st.v) EXCEPT !.err = FALSE], x.resps, x.m, st.v)
      all == SetupReq(Acc(EmptyOp, Empty), x.reqs, x.m, st.v)
  IN KeepComps(st.comps, Only(KeepComps(a.comps, all.comps), keep))

AddCtx(st, e, keep) ==
  LET x == st.ctxs[e.c]
      b == Built(st, e.c)
  IN IF Taken(st, x.m, x.p) THEN Res(st, FALSE)
     ELSE IF ~b.ok THEN Res([st EXCEPT !.comps = Leftover(st, e.c, keep)], FALSE)
     ELSE Res(PutOp([st EXCEPT !.comps = b.comps], x.m, x.p, b.op), TRUE)

AddHook(st, e, keep) ==
  LET x == st.ctxs[e.c]
      b == Built(st, e.c)
  IN IF Has(st.hooks, x.p) THEN Res(st, FALSE)
     ELSE IF ~b.ok THEN Res([st EXCEPT !.comps = Leftover(st, e.c, keep)], FALSE)
     ELSE Res(PutHook([st EXCEPT !.comps = b.comps], x.m, x.p, b.op), TRUE)

\* Operation built by hand: [params, summary, resps].
HandResp(s) == [k |-> "resp", desc |-> "R" \o s, content |-> Empty, headers |-> Empty]
HandOp(o) ==
  [EmptyOp EXCEPT !.params = SeqMap(HandParam, o.params),
                  !.meta = IF o.summary = "" THEN Empty ELSE "summary" :> Str(o.summary),
                  !.resps = [s \in Range0(o.resps) |-> HandResp(s)]]

SpecAdd(st, e) ==
  LET s == Sanitize(e.m, e.p)
      op == WithNoContent(HandOp(e.o))
      ok == s.ok /\ ~Taken(st, s.method, s.path) /\ ParamsMatch(op.params, Range0(s.names))
  IN Res(IF ok THEN PutOp(st, s.method, s.path, op) ELSE st, ok)

SpecHook(st, e) ==
  LET s == Sanitize(e.m, "/")
      ok == s.ok /\ ~Has(st.hooks, e.name)
  IN Res(IF ok THEN PutHook(st, s.method, e.name, WithNoContent(HandOp(e.o))) ELSE st, ok)

\* Edits of Spec.SetupOperation, in order; a failing edit fails the call.
Edit(a, d) ==
  IF a.err THEN a
  ELSE CASE d.k = "param" -> [a EXCEPT !.op.params = Append(@, HandParam(d))]
         [] d.k = "summary" -> [a EXCEPT !.op.meta = Put(@, "summary", Str(d.s))]
         [] d.k = "resp" -> [a EXCEPT !.op.resps = Put(@, d.s, HandResp(d.s))]
         [] d.k = "noparams" -> [a EXCEPT !.op.params = <<>>]
         [] d.k = "fail" -> [a EXCEPT !.err = TRUE]
SpecSetup(st, e) ==
  LET s == Sanitize(e.m, e.p)
      start == IF Taken(st, s.method, s.path) THEN st.paths[s.path][s.method].op ELSE EmptyOp
      a == FoldLeft(Edit, [op |-> start, err |-> FALSE], e.edits)
      ok == s.ok /\ ~a.err /\ ParamsMatch(a.op.params, Range0(s.names))
  IN Res(IF ok THEN PutOp(st, s.method, s.path, a.op) ELSE st, ok)

-----------------------------------------------------------------------------
(* Document-level metadata and security schemes.                           *)
SetInfo(st, e) ==
  LET i == Put(st.info, e.f, Str(e.v))
  IN ResOut([st EXCEPT !.info = i], TRUE,
            [title |-> i["title"], version |-> i["version"], description |-> Get(i, "description", Str(""))])

SecJ(e) ==
  LET d == "description" :> Str(e.desc)
  IN CASE e.k = "basic" -> Obj(d @@ ("type" :> Str("http")) @@ ("scheme" :> Str("basic")))
       [] e.k = "bearer" -> Obj(PutIf(e.format # "", d @@ ("type" :> Str("http")) @@ ("scheme" :> Str("bearer")), "bearerFormat", Str(e.format)))
       [] e.k = "apikey" -> Obj(d @@ ("type" :> Str("apiKey")) @@ ("name" :> Str(e.field)) @@ ("in" :> Str(e.in)))
DeclareSec(st, e) == Res([st EXCEPT !.secs = Put(st.secs, e.name, SecJ(e))], TRUE)

-----------------------------------------------------------------------------
(* Exported JSON Schemas.                                                  *)
JS(j, v) == IF Is31(v) THEN j ELSE FromOAS(j)
JSComps(comps, v) == [n \in DOMAIN comps |-> JS(comps[n], v)]
Exported(j, comps, v) == Export(JS(j, v), JSComps(comps, v))

Resolve(st, e) ==
  LET n == TrimPrefix(e.ref, RefPrefix)
      found == StartsWith(e.ref, RefPrefix) /\ Has(st.comps, n)
  IN ResOut(st, found, IF ~found THEN Empty
                       ELSE [schema |-> IF Is31(st.v) THEN st.comps[n] ELSE Exported(st.comps[n], st.comps, st.v)])

ExportComp(st, e) ==
  ResOut(st, TRUE, [schema |-> Exported(RefTo(e.name), st.comps, st.v)])

-----------------------------------------------------------------------------
(* Walkers.  A report is [in, name, schema, required].                     *)
Report(in, name, schema, req) == [in |-> in, name |-> name, schema |-> schema, required |-> req]
NoSchema == Null
SchemaOfParam(p) ==
  IF Has(p, "schema") THEN p["schema"]
  ELSE IF Has(p, "content") /\ Has(p["content"][2], MimeJSON) THEN Get(p["content"][2][MimeJSON][2], "schema", EmptyObj)
  ELSE EmptyObj

ParamReports(op, comps, v) ==
  LET one(p) == Report(p[2]["in"][2], p[2]["name"][2], Exported(SchemaOfParam(p[2]), comps, v), Has(p[2], "required") /\ True(p[2]["required"]))
  IN SeqMap(one, op.params)

FormReports(root, comps, v) ==
  LET x == Exported(root, comps, v)[2]
      props == IF Has(x, "properties") THEN x["properties"][2] ELSE Empty
      req == IF Has(x, "required") THEN {x["required"][2][i][2] : i \in DOMAIN x["required"][2]} ELSE {}
      schema(n) == IF Has(x, "components") THEN Obj(Put(props[n][2], "components", x["components"])) ELSE props[n]
  IN {Report("formData", n, schema(n), n \in req) : n \in DOMAIN props}

WalkReqReports(op, comps, v) ==
  LET c == IF op.body.k = "body" THEN op.body.content ELSE Empty
      sch(mt) == Get(c[mt][2], "schema", EmptyObj)
  IN Range0(ParamReports(op, comps, v))
     \cup (IF Has(c, MimeJSON) THEN {Report("body", "body", Exported(sch(MimeJSON), comps, v), FALSE)} ELSE {})
     \cup (IF Has(c, MimeForm) THEN FormReports(sch(MimeForm), comps, v) ELSE {})

Upper == [c \in LowerLetters |-> CHOOSE u \in UpperLetters : Lower[u] = c]
UpperCh(c) == IF c \in LowerLetters THEN Upper[c] ELSE c
LowerCh(c) == IF c \in UpperLetters THEN Lower[c] ELSE c
RECURSIVE CanonFrom(_, _)
CanonFrom(s, up) == IF s = "" THEN "" ELSE (IF up THEN UpperCh(Ch(s, 1)) ELSE LowerCh(Ch(s, 1))) \o CanonFrom(From(s, 2), Ch(s, 1) = "-")
Canonical(s) == CanonFrom(s, TRUE)

\* Reports for a response are a sequence without order.
WalkRespReports(r, comps, v) ==
  IF r.k = "ref" THEN <<>>
  ELSE LET hs == SetToSeq(DOMAIN r.headers)
           cs == SetToSeq({m \in DOMAIN r.content : v = "3" \/ Has(r.content[m][2], "schema")})
           sch(o) == Get(o, "schema", EmptyObj)
           hdr(n) == Report("header", Canonical(n), Exported(sch(r.headers[n][2]), comps, v),
                            Has(r.headers[n][2], "required") /\ True(r.headers[n][2]["required"]))
           bod(m) == Report("body", "body", Exported(sch(r.content[m][2]), comps, v), FALSE)
       IN SeqMap(hdr, hs) \o SeqMap(bod, cs)

\* out: reports in any order, whether the walk failed before reporting.
WalkReq(st, e, keep) ==
  LET a == SetupReq(Acc(EmptyOp, st.comps), <<e.u>>, e.m, st.v)
  IN IF a.err THEN ResOut([st EXCEPT !.comps = KeepComps(st.comps, Only(a.comps, keep))], FALSE, [reports |-> <<>>])
     ELSE ResOut([st EXCEPT !.comps = a.comps], TRUE, [reports |-> SetToSeq(WalkReqReports(a.op, a.comps, st.v))])
WalkResp(st, e) ==
  LET a == SetupResp(Acc(EmptyOp, st.comps), <<e.u>>, "get", st.v)
  IN IF a.err THEN ResOut(st, FALSE, [reports |-> <<>>])
     ELSE ResOut([st EXCEPT !.comps = a.comps], TRUE, [reports |-> WalkRespReports(a.op.resps[StatusKey(e.u)], a.comps, st.v)])

-----------------------------------------------------------------------------
(* Deprecated OpenAPI 3.0 entry points: set up an operation from one       *)
(* request and response structures, then register it.                      *)
Legacy(st, e) ==
  LET s == Sanitize(e.m, e.p)
      a1 == IF e.req.t.k = "none" /\ Bad(e.req) = "" THEN Acc(EmptyOp, st.comps) ELSE SetupReq(Acc(EmptyOp, st.comps), <<e.req>>, s.method, st.v)
      a2 == SetupResp(a1, e.resps, s.method, st.v)
      op == WithNoContent(a2.op)
      ok == s.ok /\ ~a2.err /\ ~Taken(st, s.method, s.path) /\ ParamsMatch(op.params, Range0(s.names))
  IN Res(IF ok THEN PutOp([st EXCEPT !.comps = a2.comps], s.method, s.path, op) ELSE [st EXCEPT !.comps = a2.comps], ok)

-----------------------------------------------------------------------------
(* The document, encoded and decoded, takes the place of itself.           *)
\* A decoded 3.0 header or cookie parameter states its only style explicitly.
RECURSIVE ExplicitStyle(_)
ExplicitStyle(j) ==
  IF IsArr(j) THEN Arr([i \in DOMAIN j[2] |-> ExplicitStyle(j[2][i])])
  ELSE IF ~IsObj(j) THEN j
  ELSE LET o == [k \in DOMAIN j[2] |-> ExplicitStyle(j[2][k])]
           isP == Has(o, "in") /\ Has(o, "name") /\ (Has(o, "schema") \/ Has(o, "content")) /\ ~Has(o, "style")
       IN IF isP /\ o["in"] = Str("header") THEN Obj(Put(o, "style", Str("simple")))
          ELSE IF isP /\ o["in"] = Str("cookie") THEN Obj(Put(o, "style", Str("form")))
          ELSE Obj(o)

Reload(st) ==
  LET one(x) == IF st.v # "3" THEN x ELSE Entry([x.op EXCEPT !.params = SeqMap(ExplicitStyle, @)], st.v)
  IN Res([st EXCEPT !.paths = [p \in DOMAIN @ |-> [m \in DOMAIN @[p] |-> one(@[p][m])]]], TRUE)

-----------------------------------------------------------------------------
Step(st, e, keep) ==
  CASE e.ev = "new" -> NewOp(st, e)
    [] e.ev = "set" -> SetMeta(st, e)
    [] e.ev = "addsec" -> AddSec(st, e)
    [] e.ev = "req" -> AddReq(st, e)
    [] e.ev = "resp" -> AddResp(st, e)
    [] e.ev = "opparam" -> OpParam(st, e)
    [] e.ev = "add" -> AddCtx(st, e, keep)
    [] e.ev = "hook" -> AddHook(st, e, keep)
    [] e.ev = "specadd" -> SpecAdd(st, e)
    \* A context made by a reflector of the other version is refused.
    [] e.ev = "foreign" -> Res(st, FALSE)
    [] e.ev = "spechook" -> SpecHook(st, e)
    [] e.ev = "specsetup" -> SpecSetup(st, e)
    [] e.ev = "info" -> SetInfo(st, e)
    [] e.ev = "sec" -> DeclareSec(st, e)
    [] e.ev = "resolve" -> Resolve(st, e)
    [] e.ev = "export" -> ExportComp(st, e)
    [] e.ev = "walkreq" -> WalkReq(st, e, keep)
    [] e.ev = "walkresp" -> WalkResp(st, e)
    [] e.ev = "legacy" -> Legacy(st, e)
    [] e.ev = "reload" -> Reload(st)
    \* Reflecting a structure on its own is none of the document's business.
    [] e.ev = "reflect" -> Res(st, TRUE)

-----------------------------------------------------------------------------
(* The encoded document.                                                   *)
PathsJ(ps) == Obj([p \in DOMAIN ps |-> Obj([m \in DOMAIN ps[p] |-> ps[p][m].j])])

-----------------------------------------------------------------------------
(* Properties of the design, checked on the state machine by MCDoc.        *)
AllOps(st) == {st.paths[p][m].op : <<p, m>> \in UNION {{<<q, n>> : n \in DOMAIN st.paths[q]} : q \in DOMAIN st.paths}}
AllHookOps(st) == {st.hooks[p][m].op : <<p, m>> \in UNION {{<<q, n>> : n \in DOMAIN st.hooks[q]} : q \in DOMAIN st.hooks}}

\* C03
OpsMatchPaths(st) == \A p \in DOMAIN st.paths : \A m \in DOMAIN st.paths[p] : ParamsMatch(st.paths[p][m].op.params, PathNames(p))
\* C02
KeysClean(st) == \A p \in DOMAIN st.paths : CleanPath(p) = p /\ DOMAIN st.paths[p] \subseteq Methods
\* C08
DocRefs(st) == UNION {RefsIn(OpJ(op, st.v)) : op \in AllOps(st) \cup AllHookOps(st)} \cup UNION {RefsIn(st.comps[n]) : n \in DOMAIN st.comps}
\* Local references, except for those to components of other kinds.
SchemaRefs(refs) == {r \in refs : StartsWith(r, "#") /\ \A k \in {"responses", "requestBodies", "parameters"} : ~StartsWith(r, "#/components/" \o k \o "/")}
Resolves(r, names) == StartsWith(r, RefPrefix) /\ TrimPrefix(r, RefPrefix) \in names
RefsResolve(st) == \A r \in SchemaRefs(DocRefs(st)) : Resolves(r, DOMAIN st.comps)
NamesValid(st) == \A n \in DOMAIN st.comps : n # "" /\ KeepChars(n, NameChars) = n
\* C07
AlwaysResponds(st) == \A op \in AllOps(st) \cup AllHookOps(st) : op.resps # Empty
\* C24
ExportsSelfContained(st) == \A n \in DOMAIN st.comps : SelfContained(Exported(RefTo(n), st.comps, st.v))

\* C04, C01: a rejected call changes no operation and no webhook, an accepted
\* one changes at most the entry it is about, and never removes one.
Frame(st, e, r) ==
  /\ ~r.ok => r.st.paths = st.paths /\ r.st.hooks = st.hooks
  /\ DOMAIN st.paths \subseteq DOMAIN r.st.paths
  /\ \A p \in DOMAIN st.paths : DOMAIN st.paths[p] \subseteq DOMAIN r.st.paths[p]
  /\ e.ev # "specsetup" => \A p \in DOMAIN st.paths : \A m \in DOMAIN st.paths[p] : r.st.paths[p][m] = st.paths[p][m]
  /\ \A n \in DOMAIN st.hooks : r.st.hooks[n] = st.hooks[n]
\* C09
CompsStable(st, r) == \A n \in DOMAIN st.comps : n \in DOMAIN r.st.comps /\ r.st.comps[n] = st.comps[n]
=============================================================================
