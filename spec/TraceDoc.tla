------------------------------- MODULE TraceDoc -------------------------------
(***************************************************************************)
(* Validation of a recorded trace of the library against Doc.              *)
(*                                                                         *)
(* Every event is one call with its outcome and the document after it.     *)
(* The calls drive Step; outcome and document have to be what Step says,   *)
(* in all aspects the checked property is about.  A mismatch is printed    *)
(* and the rest of the scenario skipped.                                   *)
(***************************************************************************)
EXTENDS Doc

Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
Prop == IOEnv.VH_PROP

VARIABLES l, st, obs, skip, cnt
vars == <<l, st, obs, skip, cnt>>

-----------------------------------------------------------------------------
(* What the properties are about.                                          *)
OpAspects == {"ops", "meta", "params", "body", "resps", "opsec", "opother"}
Aspects ==
  CASE Prop = "C01" -> {"ok"} \cup OpAspects
    [] Prop = "C02" -> {"ok", "new", "ops"}
    [] Prop = "C03" -> {"ok", "ops"}
    [] Prop = "C04" -> {"ok", "hooks"} \cup OpAspects
    [] Prop = "C05" -> {"ok", "params", "forbid"}
    [] Prop = "C06" -> {"ok", "body"}
    [] Prop = "C07" -> {"ok", "resps"}
    [] Prop = "C08" -> {"ok", "refs", "names", "compnames"}
    [] Prop = "C09" -> {"ok", "comps", "compnames"}
    [] Prop = "C10" -> {"ok", "hooks", "comps"} \cup OpAspects
    [] Prop = "C11" -> {"ok", "codec"}
    [] Prop = "C12" -> {"ok", "yaml"}
    [] Prop = "C15" -> {"ok", "walk"} \cup OpAspects
    [] Prop = "C16" -> {"ok", "secs", "opsec"}
    [] Prop = "C17" -> {"ok", "hooks", "comps", "secs", "info", "rest"} \cup OpAspects
    [] Prop = "C19" -> {"ok", "hooks", "ops"}
    [] Prop = "C20" -> {"ok", "meta", "getters", "info", "opsec"}
    [] Prop = "C21" -> {"ok", "comps"} \cup OpAspects
    [] Prop = "C22" -> {"ok", "schemahooks"}
    [] Prop = "C23" -> {"ok", "prints"} \cup OpAspects
    [] Prop = "C24" -> {"ok", "resolve", "export", "comps", "unchanged"}
    [] Prop = "ALL" -> {"ok", "new", "forbid", "refs", "names", "comps", "compnames", "hooks", "codec", "yaml", "walk", "secs", "getters",
                        "info", "rest", "schemahooks", "prints", "resolve", "export", "unchanged"} \cup OpAspects
On(a) == a \in Aspects

-----------------------------------------------------------------------------
(* Comparison of documents: set of <<aspect, where, expected, observed>>.  *)
Diff(a, where, ex, ob) == [aspect |-> a, at |-> where, expected |-> ToJson(ex), observed |-> ToJson(ob)]
Cmp(a, where, ex, ob) == IF On(a) /\ NormTypes(ex) # NormTypes(ob) THEN {Diff(a, where, ex, ob)} ELSE {}

MetaMembers == {"tags", "summary", "description", "operationId", "deprecated"}
ForbidMembers == {Forbidden(in) : in \in Range0(Locations)}
ParamMembers == {"parameters"} \cup ForbidMembers
Known == MetaMembers \cup ParamMembers \cup {"requestBody", "responses", "security"}

\* Operations of a document: functions of members.
CmpOp(where, ex, ob) ==
  IF ex = ob THEN {}
  ELSE LET part(a, K) == Cmp(a, where, Obj(Only(ex, K)), Obj(Only(ob, K)))
       IN part("meta", MetaMembers) \cup part("params", ParamMembers) \cup part("body", {"requestBody"})
          \cup part("resps", {"responses"}) \cup part("opsec", {"security"}) \cup part("opother", (DOMAIN ex \cup DOMAIN ob) \ Known)

CmpPaths(a, ex, ob) ==
  LET keysE == UNION {{<<p, m>> : m \in DOMAIN ex[p]} : p \in DOMAIN ex}
      keysO == UNION {{<<p, m>> : m \in DOMAIN ob[p][2]} : p \in DOMAIN ob}
  IN (IF On("ops") /\ (keysE # keysO \/ DOMAIN ex # DOMAIN ob)
      THEN {[aspect |-> "ops", at |-> "paths", expected |-> ToJson(keysE), observed |-> ToJson(keysO)]} ELSE {})
     \cup UNION {CmpOp(k[2] \o " " \o k[1], ex[k[1]][k[2]].j[2], ob[k[1]][2][k[2]][2]) : k \in keysE \cap keysO}

CmpComps(ex, ob) ==
  (IF On("compnames") /\ DOMAIN ex # DOMAIN ob THEN {Diff("compnames", "components", DOMAIN ex, DOMAIN ob)} ELSE {})
  \cup UNION {Cmp("comps", n, ex[n], ob[n]) : n \in {x \in DOMAIN ex \cap DOMAIN ob : ex[x] # ob[x]}}

HooksJ(hs) == PathsJ(hs)

RestJ(v) == Obj("openapi" :> Str(IF v = "3" THEN "3.0.3" ELSE "3.1.0"))

CmpDoc(s, o) ==
  CmpPaths("ops", s.paths, o.paths[2])
  \cup Cmp("hooks", "webhooks", HooksJ(s.hooks), o.hooks)
  \cup CmpComps(s.comps, o.comps[2])
  \cup Cmp("secs", "securitySchemes", Obj(s.secs), o.secs)
  \cup Cmp("info", "info", Obj(s.info), o.info)
  \cup Cmp("rest", "document", RestJ(s.v), o.rest)

\* Read off the observed document alone.
CmpRefs(o) ==
  LET refs == SchemaRefs(RefsIn(o.paths) \cup RefsIn(o.hooks) \cup RefsIn(o.comps))
      lost == {r \in refs : ~Resolves(r, DOMAIN o.comps[2])}
      bad == {n \in DOMAIN o.comps[2] : n = "" \/ KeepChars(n, NameChars) # n}
  IN (IF On("refs") /\ lost # {} THEN {Diff("refs", "document", {}, lost)} ELSE {})
     \cup (IF On("names") /\ bad # {} THEN {Diff("names", "components", {}, bad)} ELSE {})

\* The document is the one before: so has to be the model's.
CmpSame(s, t) ==
  IF s.paths = t.paths /\ s.hooks = t.hooks /\ s.comps = t.comps /\ s.secs = t.secs /\ s.info = t.info THEN {}
  ELSE LET diff(a, x, y) == IF On(a) /\ x # y THEN {Diff(a, "document unchanged", x, y)} ELSE {}
       IN UNION {diff(a, t.paths, s.paths) : a \in OpAspects} \cup diff("hooks", HooksJ(t.hooks), HooksJ(s.hooks))
          \cup diff("comps", t.comps, s.comps) \cup diff("secs", t.secs, s.secs) \cup diff("info", t.info, s.info)

-----------------------------------------------------------------------------
(* Outputs of calls.                                                       *)
Loc == {"query", "path", "cookie", "header"}
CmpForbid(e, s) ==
  IF ~On("forbid") \/ e.ev \notin {"add", "hook"} \/ ~e.ok THEN {}
  ELSE LET x == s.ctxs[e.c]
           tab == IF e.ev = "add" THEN s.paths[x.p] ELSE s.hooks[x.p]
           ext == tab[x.m].op.ext
           want == [in \in Loc |-> Has(ext, Forbidden(in))]
       IN IF want = e.out.forbid THEN {} ELSE {Diff("forbid", e.c, want, e.out.forbid)}

NormReport(r) == [in |-> r.in, name |-> r.name, schema |-> NormTypes(r.schema), required |-> r.required]
Bag(q) == LET n == [i \in DOMAIN q |-> NormReport(q[i])]
          IN [x \in Range0(n) |-> Cardinality({i \in DOMAIN n : n[i] = x})]
BagWithin(b, c) == \A x \in DOMAIN b : Has(c, x) /\ b[x] <= c[x]
CmpWalk(e, r) ==
  IF ~On("walk") THEN {}
  ELSE LET want == r.out.reports
           got == e.out.reports
           fail == Get(e, "failat", 0)
           stops == r.ok /\ fail > 0 /\ fail <= Len(want)
           good == /\ e.out.done = IF Get(e, "nodone", FALSE) THEN 0 ELSE 1
                   /\ e.ok = (r.ok /\ ~stops)
                   /\ e.out.stopped = stops
                   /\ IF stops THEN Len(got) = fail /\ BagWithin(Bag(got), Bag(want)) ELSE Bag(got) = Bag(want)
       IN IF good THEN {} ELSE {Diff("walk", e.ev, [ok |-> r.ok /\ ~stops, reports |-> want], [ok |-> e.ok, out |-> e.out])}

CmpOut(e, r, s2) ==
  CASE e.ev = "new" -> IF On("new") /\ e.ok /\ e.out # r.out THEN {Diff("new", e.c, r.out, e.out)} ELSE {}
    [] e.ev = "set" -> IF On("getters") /\ e.out # r.out THEN {Diff("getters", e.c, r.out, e.out)} ELSE {}
    [] e.ev = "info" -> IF On("info") /\ e.out # r.out THEN {Diff("info", "getters", r.out, e.out)} ELSE {}
    [] e.ev \in {"resolve", "export"} ->
         IF e.ok /\ On(e.ev) THEN Cmp(e.ev, Get(e, "ref", Get(e, "name", "")), r.out.schema, e.out.schema) ELSE {}
    [] e.ev \in {"walkreq", "walkresp"} -> CmpWalk(e, r)
    [] OTHER -> {}

\* Reading calls leave the document as it is.
CmpReads(e) == IF On("unchanged") /\ e.ev \in {"resolve", "export"} /\ ~e.same THEN {Diff("unchanged", e.ev, "same document", e.doc)} ELSE {}

CmpPrints(e) ==
  IF On("prints") /\ Has(e, "prints") /\ \E i \in DOMAIN e.prints : e.prints[i] # e.prints[1]
  THEN {Diff("prints", "replay", e.prints[1], e.prints)} ELSE {}

-----------------------------------------------------------------------------
(* Schema hooks.  A call is [t, known, in, resp, m, p].                    *)
\* Named types of a unit in a location, with the unit's own type.
NamedIn(T, rc) == {X.n : X \in {Y \in Close(Inside(Deref(T), rc), {}, rc) : Y.k = "named"}}
RootName(T) == IF Deref(T).k = "named" THEN {Deref(T).n} ELSE {}

\* Named types of parameters, of their JSON content, too.
FieldNames(u, v, in) ==
  LET rc == ParamCtx(Is31(v), in, UMap(u, in))
      ps == Props(u.t, rc)
      j == JSONCtx(Is31(v))
  IN UNION {RootName(ps[i].f.t) \cup (IF AsJSON(ps[i].f, in) THEN NamedIn(ps[i].f.t, j) ELSE {}) : i \in DOMAIN ps}

\* Locations in which a unit is reflected for sure, with the names seen there.
ReqSees(u, m, v) ==
  LET p(in) == IF u.t.k = "none" \/ IsSliceOrMap(u.t) THEN {}
               ELSE {<<in, FALSE, n>> : n \in RootName(u.t) \cup FieldNames(u, v, in)}
      ct == u.ct
  IN (IF ct \in {"", MimeJSON, MimeForm, MimeMultipart} THEN UNION {p(in) : in \in Loc} ELSE {})
     \cup (IF ct \in {"", MimeJSON} /\ HasJSONReq(u, m)
           THEN {<<"body", FALSE, n>> : n \in RootName(u.t) \cup NamedIn(u.t, JSONCtx(Is31(v)))} ELSE {})
     \cup (IF ct \in {"", MimeForm, MimeMultipart} /\ HasFormBody(u, m)
           THEN {<<"body", FALSE, n>> : n \in RootName(u.t) \cup NamedIn(u.t, FormCtx(Is31(v), UMap(u, "formData")))} ELSE {})
RespSees(u, m, v) ==
  IF u.t.k = "none" THEN {}
  ELSE {<<"header", TRUE, n>> : n \in RootName(u.t)}
       \cup (IF m # "head" /\ HasJSONResp(u.t)
             THEN {<<"body", TRUE, n>> : n \in RootName(u.t) \cup NamedIn(u.t, JSONCtx(Is31(v)))} ELSE {})

\* All names that may be seen in a location.
MayReq(u, v, in) ==
  LET j == JSONCtx(Is31(v))
      rc == IF in = "body" THEN FormCtx(Is31(v), UMap(u, "formData")) ELSE ParamCtx(Is31(v), in, UMap(u, in))
      names == NamedIn(u.t, rc) \cup RootName(u.t)
      fields == UNION {NamedIn(f.t, j) \cup RootName(f.t) : f \in {Props(u.t, rc)[i].f : i \in DOMAIN Props(u.t, rc)}}
  IN IF u.t.k = "none" THEN {} ELSE names \cup fields \cup (IF in = "body" THEN NamedIn(u.t, j) ELSE {})

\* Types that show up as embedded structures and scalars have no component:
\* they may be seen anywhere the structure is.
HasComp(n) == Has(Types, n) /\ ~TrivialScalar(n) /\ ~InPlace /\ ~Has(Types[n].tr, "inline")

HookCtx(e, s) ==
  CASE e.ev \in {"add", "hook"} -> [m |-> s.ctxs[e.c].m, p |-> s.ctxs[e.c].p, reqs |-> s.ctxs[e.c].reqs, resps |-> s.ctxs[e.c].resps]
    [] e.ev = "walkreq" -> [m |-> e.m, p |-> "/", reqs |-> <<e.u>>, resps |-> <<>>]
    [] e.ev = "walkresp" -> [m |-> "get", p |-> "/", reqs |-> <<>>, resps |-> <<e.u>>]
    [] e.ev = "legacy" -> [m |-> ToLower(e.m), p |-> "", resps |-> e.resps, reqs |-> IF e.req.t.k = "none" THEN <<>> ELSE <<e.req>>]
    [] OTHER -> [m |-> "", p |-> "", reqs |-> <<>>, resps |-> <<>>]

\* The deprecated view of 3.0: the first request and response unit.
TypeIs(T, name) == IF T.k = "none" THEN name = "" ELSE RootName(T) = {} \/ name \in RootName(T)
SameMap(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]
OldView(h, x) ==
  /\ h.old.m = h.m /\ h.old.in = h.in /\ h.old.resp = h.resp
  /\ LET o == h.old IN
     /\ IF x.reqs = <<>> THEN o.input = ""
        ELSE TypeIs(x.reqs[1].t, o.input) /\ \A w \in Loc \cup {"formData"} : SameMap(o[w], UMap(x.reqs[1], w))
     /\ IF x.resps = <<>> THEN o.output = "" /\ o.status = 0
        ELSE /\ TypeIs(x.resps[1].t, o.output) /\ o.ct = x.resps[1].ct /\ o.status = x.resps[1].status
             /\ SameMap(o.rheader, UMap(x.resps[1], "header"))

CmpHooks(e, s, r) ==
  IF ~On("schemahooks") \/ ~Has(e, "hooks") THEN {}
  ELSE IF e.ev \notin {"add", "hook", "walkreq", "walkresp", "legacy"}
       THEN IF \E i \in DOMAIN e.hooks : e.hooks[i].known THEN {Diff("schemahooks", e.ev, "no operation", e.hooks)} ELSE {}
  ELSE LET x == HookCtx(e, s)
           seen == {h \in Range0(e.hooks) : h.known}
           sees == {<<h.in, h.resp, h.t>> : h \in seen}
           must == IF ~r.ok THEN {}
                   ELSE UNION {ReqSees(x.reqs[i], x.m, s.v) : i \in DOMAIN x.reqs} \cup UNION {RespSees(x.resps[i], x.m, s.v) : i \in DOMAIN x.resps}
           places == (IF x.reqs = <<>> THEN {} ELSE {<<in, FALSE>> : in \in Loc \cup {"body"}})
                     \cup (IF x.resps = <<>> THEN {} ELSE {<<"body", TRUE>>, <<"header", TRUE>>})
           \* A component type seen in a parameter location belongs to a parameter.
           stray == {h \in seen : ~h.resp /\ HasComp(h.t)
                                  /\ h.t \notin UNION {MayReq(x.reqs[i], s.v, h.in) : i \in DOMAIN x.reqs}}
           \* Without an operation only response structures are probed, and a string.
           probed == {i \in DOMAIN x.resps : x.resps[i].t.k # "none"}
           inner == UNION {NamedIn(x.resps[i].t, JSONCtx(Is31(s.v))) \cup RootName(x.resps[i].t) : i \in probed}
           lost == {h \in Range0(e.hooks) : ~h.known /\ h.t # "string" /\ (probed = {} \/ (HasComp(h.t) /\ h.t \notin inner))}
       IN (IF e.ev # "walkresp" /\ \E h \in seen : (ToLower(h.m) # x.m /\ ~(e.ev = "legacy" /\ h.resp /\ h.m = "")) \/ h.p # x.p THEN {Diff("schemahooks", "operation", <<x.m, x.p>>, seen)} ELSE {})
          \cup (IF \E h \in seen : <<h.in, h.resp>> \notin places THEN {Diff("schemahooks", "location", places, seen)} ELSE {})
          \cup (IF must \subseteq sees THEN {} ELSE {Diff("schemahooks", "missing", must \ sees, sees)})
          \cup (IF stray # {} THEN {Diff("schemahooks", "stray", {}, stray)} ELSE {})
          \cup (IF e.ev \notin {"add", "hook"} THEN {}
                ELSE LET odd == {h \in seen : Has(h, "old") /\ ~OldView(h, x)}
                     IN IF odd = {} THEN {} ELSE {Diff("schemahooks", "deprecated view", <<x.reqs, x.resps>>, odd)})
          \cup (IF lost # {} THEN {Diff("schemahooks", "without operation", {}, lost)} ELSE {})

-----------------------------------------------------------------------------
(* Finished documents through encoders and decoders.                       *)
CmpCodec(e, v) ==
  LET x == IF v = "3" THEN ExplicitStyle(e.orig) ELSE e.orig
  IN (IF On("codec") /\ (e.pan # "" \/ e.once # x \/ e.twice # x)
      THEN {Diff("codec", e.pan, x, e.once)} ELSE {})
     \cup (IF On("yaml") /\ (e.pan # "" \/ e.viayaml # x \/ e.yaml # e.orig)
           THEN {Diff("yaml", e.pan, x, e.viayaml)} ELSE {})

\* C10: both versions side by side, 3.1 expressed in 3.0 vocabulary.
SchemaAt(o) == IF Has(o, "schema") THEN ToOAS(o["schema"]) ELSE EmptyObj
\* Nullability at the top of parameter and response schemas is a listed exception.
LooseNull(j) == IF IsObj(j) THEN Obj(Del(j[2], {"nullable"})) ELSE j
Media30(c) == Obj([m \in DOMAIN c |-> Obj(Put(c[m][2], "schema", SchemaAt(c[m][2])))])
MediaLoose(c) == Obj([m \in DOMAIN c |-> Obj(Put(c[m][2], "schema", LooseNull(Get(c[m][2], "schema", EmptyObj))))])
LooseP(p, conv) ==
  LET f == p[2]
      s == IF conv THEN SchemaAt(f) ELSE Get(f, "schema", EmptyObj)
      cont == IF Has(f, "content") THEN "content" :> (IF conv THEN MediaLoose(Media30(f["content"][2])[2]) ELSE MediaLoose(f["content"][2])) ELSE Empty
      \* Headers have these two only in 3.0.
      f1 == IF Has(f, "name") THEN f ELSE Del(f, {"allowEmptyValue", "allowReserved"})
  IN IF ~IsObj(p) THEN p ELSE Obj(Over(IF Has(f, "content") THEN f1 ELSE Put(f1, "schema", LooseNull(s)), cont))
LooseR(r, conv) ==
  LET f == r[2]
      c == IF Has(f, "content") THEN "content" :> (IF conv THEN MediaLoose(Media30(f["content"][2])[2]) ELSE MediaLoose(f["content"][2])) ELSE Empty
      h == IF Has(f, "headers") THEN "headers" :> Obj([n \in DOMAIN f["headers"][2] |-> LooseP(f["headers"][2][n], conv)]) ELSE Empty
  IN Obj(Over(f, Over(c, h)))
Body30(b, conv) ==
  LET f == b[2]
      fill(c) == Obj([m \in DOMAIN c |-> Obj(Put(c[m][2], "schema", Get(c[m][2], "schema", EmptyObj)))])
  IN IF Has(f, "content") THEN Obj(Put(f, "content", IF conv THEN Media30(f["content"][2]) ELSE fill(f["content"][2]))) ELSE b
LooseOp(o, conv) ==
  LET f == o[2]
      p == IF Has(f, "parameters") THEN "parameters" :> Arr([i \in DOMAIN f["parameters"][2] |-> LooseP(f["parameters"][2][i], conv)]) ELSE Empty
      b == IF Has(f, "requestBody") THEN "requestBody" :> Body30(f["requestBody"], conv) ELSE Empty
      r == IF Has(f, "responses") THEN "responses" :> Obj([s \in DOMAIN f["responses"][2] |-> LooseR(f["responses"][2][s], conv)]) ELSE Empty
  IN Obj(Over(Over("responses" :> EmptyObj, f), Over(p, Over(b, r))))
Down(ps) == Obj([p \in DOMAIN ps |-> Obj([m \in DOMAIN ps[p][2] |-> LooseOp(ps[p][2][m], TRUE)])])
Same(ps) == Obj([p \in DOMAIN ps |-> Obj([m \in DOMAIN ps[p][2] |-> LooseOp(ps[p][2][m], FALSE)])])
\* contentMediaType of files exists only in 3.1.
NoMedia(j) == IF IsObj(j) THEN Obj(Del(j[2], {"contentMediaType"})) ELSE j
CmpPair(e) ==
  LET d3 == e.doc3  d31 == e.doc31
      comps31 == [n \in DOMAIN d31.comps[2] |-> NoMedia(ToOAS(d31.comps[2][n]))]
      cmp(where, x, y) == IF x = y THEN {} ELSE {Diff("pair", where, x, y)}
      both == {i \in DOMAIN e.oks3 : e.oks3[i] # "skip" /\ e.oks31[i] # "skip"}
      \* Rejected calls may leave unused components, not the same ones in both.
      keep == IF \E i \in DOMAIN e.oks3 : e.oks3[i] = "false" THEN DOMAIN d3.comps[2] \cap DOMAIN comps31
              ELSE DOMAIN d3.comps[2] \cup DOMAIN comps31
  IN (IF e.pan # "" THEN {Diff("pair", "panic", "", e.pan)} ELSE {})
     \cup cmp("outcomes", [i \in both |-> e.oks3[i]], [i \in both |-> e.oks31[i]])
     \cup cmp("paths", Same(d3.paths[2]), Down(d31.paths[2]))
     \cup cmp("components", Only(d3.comps[2], keep), Only(comps31, keep))
     \cup cmp("secs", d3.secs, d31.secs)
     \cup cmp("info", d3.info, d31.info)

-----------------------------------------------------------------------------
Marker(e, ds) == "@@" \o ToJson([prop |-> Prop, l |-> l, n |-> Get(e, "n", -1), v |-> st.v, ev |-> e.ev, diffs |-> ds])
Report0(e, ds) == IF ds = {} THEN TRUE ELSE PrintT(Marker(e, ds))

EmptyObs(v) == [paths |-> EmptyObj, hooks |-> EmptyObj, comps |-> EmptyObj, secs |-> EmptyObj, info |-> Obj(InitInfo), rest |-> RestJ(v)]

Keep(e, o) == IF e.ok \/ e.same THEN {} ELSE DOMAIN o.comps[2]

OkMatters(e) == e.ev \notin {"walkreq", "walkresp"}

Judge(e, r, o2) ==
  IF e.pan # "" THEN {[aspect |-> "panic", at |-> e.ev, expected |-> "", observed |-> e.pan]}
  ELSE IF OkMatters(e) /\ On("ok") /\ e.ok # r.ok THEN {[aspect |-> "ok", at |-> e.ev, expected |-> ToString(r.ok), observed |-> e.err]}
  ELSE (IF e.same THEN CmpSame(st, r.st) ELSE CmpDoc(r.st, o2) \cup CmpRefs(o2))
       \cup CmpOut(e, r, r.st) \cup CmpForbid(e, r.st) \cup CmpReads(e) \cup CmpPrints(e) \cup CmpHooks(e, st, r)

\* What the event does to the checker: [st, obs, skip, cnt, ds].
React(e) ==
  CASE e.ev = "begin" -> [st |-> InitDoc(e.v), obs |-> EmptyObs(e.v), skip |-> FALSE, cnt |-> [cnt EXCEPT !.scen = @ + 1], ds |-> {}]
    [] e.ev = "pair" ->
         LET ds == CmpPair(e)
         IN [st |-> st, obs |-> obs, skip |-> skip, cnt |-> [cnt EXCEPT !.pairs = @ + 1, !.bad = @ + Cardinality(ds)], ds |-> ds]
    [] e.ev \notin {"begin", "pair", "crash"} /\ skip ->
         [st |-> st, obs |-> obs, skip |-> skip, cnt |-> [cnt EXCEPT !.skipped = @ + 1], ds |-> {}]
    [] e.ev = "codec" /\ ~skip ->
         LET ds == CmpCodec(e, st.v)
         IN [st |-> st, obs |-> obs, skip |-> skip, cnt |-> [cnt EXCEPT !.codecs = @ + 1, !.bad = @ + Cardinality(ds)], ds |-> ds]
    \* The process died or did not finish.
    [] e.ev = "crash" ->
         [st |-> st, obs |-> obs, skip |-> TRUE, cnt |-> [cnt EXCEPT !.bad = @ + 1],
          ds |-> {[aspect |-> "panic", at |-> "process", expected |-> "", observed |-> e.pan]}]
    [] OTHER ->
         LET o2 == IF e.same THEN obs ELSE e.doc
             r == Step(st, e, Keep(e, o2))
             ds == Judge(e, r, o2)
         IN [st |-> r.st, obs |-> o2, skip |-> (ds # {}), ds |-> ds,
             cnt |-> [cnt EXCEPT !.steps = @ + 1, !.ok = @ + (IF r.ok THEN 1 ELSE 0), !.bad = @ + Cardinality(ds)]]

\* The set with one element makes TLC evaluate React once.
Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ \E x \in {React(Trace[l])} :
       /\ Report0(Trace[l], x.ds)
       /\ st' = x.st /\ obs' = x.obs /\ skip' = x.skip /\ cnt' = x.cnt

Init == /\ l = 1 /\ st = InitDoc("3") /\ obs = EmptyObs("3") /\ skip = TRUE
        /\ cnt = [scen |-> 0, steps |-> 0, ok |-> 0, bad |-> 0, skipped |-> 0, pairs |-> 0, codecs |-> 0]
Finish == l > Len(Trace) /\ PrintT("@#" \o ToJson(cnt)) /\ UNCHANGED vars /\ FALSE
Next == Consume \/ Finish
\* The trace is a line: a position determines the state.
Line == l
Spec == Init /\ [][Next]_vars

\* Every event was consumed.
Consumed == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
