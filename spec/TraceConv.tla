------------------------------ MODULE TraceConv ------------------------------
(***************************************************************************)
(* Recorded schema conversions (C14) and exports (C24) against SchemaConv. *)
(***************************************************************************)
EXTENDS SchemaConv, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
Prop == IOEnv.VH_PROP

VARIABLES l, cnt
vars == <<l, cnt>>

MapObj(op(_), v) == Obj([k \in DOMAIN v[2] |-> op(v[2][k])])

Differ(aspect, exp, obs) == IF NormTypes(exp) = NormTypes(obs) THEN {} ELSE {[aspect |-> aspect, at |-> aspect, expected |-> ToJson(exp), observed |-> ToJson(obs)]}
Wrong(aspect, at, exp, obs) == {[aspect |-> aspect, at |-> at, expected |-> exp, observed |-> obs]}

\* Components as exported: what the conversion back makes of them.
Comps3(e) == [n \in DOMAIN e.comps[2] |-> FromOAS(ToOAS(e.comps[2][n]))]

ConvDiffs(e) ==
  IF Prop = "C14"
  THEN Differ("out", ToOAS(e.in), e.out) \cup Differ("outcomps", MapObj(ToOAS, e.comps), e.outcomps)
       \cup Differ("back", Export(FromOAS(ToOAS(e.in)), Comps3(e)), e.back) \cup Differ("input", e.in, e.after)
  ELSE Differ("export", Export(FromOAS(e.out), [n \in DOMAIN e.outcomps[2] |-> FromOAS(e.outcomps[2][n])]), e.back)

\* A 3.0 document made by hand: exported and loaded again.
OASDiffs(e) ==
  LET exp == Export(FromOAS(e.in), [n \in DOMAIN e.comps[2] |-> FromOAS(e.comps[2][n])])
  IN Differ("export", exp, e.back)
     \cup (IF Prop = "C14" THEN Differ("loaded", ToOAS(exp), e.out) \cup Differ("input", e.in, e.after) ELSE {})

\* Every reference of an export resolves inside it.
Closed(e) == IF IsBool(e.back) \/ SelfContained(e.back) THEN {} ELSE Wrong("self-contained", "export", "", ToJson(e.back))

Looks(e, body(_)) ==
  UNION {LET k == e.looks[i]
             n == TrimPrefix(k.ref, RefPrefix)
             found == StartsWith(k.ref, RefPrefix) /\ Has(e.outcomps[2], n)
         IN IF found # k.found THEN Wrong("look", k.ref, ToString(found), ToString(k.found))
            ELSE IF found THEN Differ("look", body(n), k.schema) ELSE {} : i \in DOMAIN e.looks}

ExportDiffs(e) ==
  IF e.ev = "export31"
  THEN Differ("export", Export(e.in, e.comps[2]), e.back) \cup Looks(e, LAMBDA n : e.comps[2][n])
  ELSE LET cs == [n \in DOMAIN e.outcomps[2] |-> FromOAS(e.outcomps[2][n])] IN Looks(e, LAMBDA n : Export(cs[n], cs))

Diffs(e) ==
  IF e.pan # "" THEN Wrong("panic", e.ev, "", e.pan)
  ELSE (IF e.ev = "export31" THEN {} ELSE IF e.ev = "oas" THEN OASDiffs(e) ELSE ConvDiffs(e))
       \cup (IF Prop = "C24" THEN ExportDiffs(e) \cup Closed(e) \cup (IF e.same THEN {} ELSE Wrong("unchanged", "document", "", "changed")) ELSE {})

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "begin" THEN cnt' = [cnt EXCEPT !.scen = @ + 1]
     ELSE IF e.ev = "crash" THEN
          /\ PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> 0, ev |-> "crash", diffs |-> <<[aspect |-> "panic", at |-> "process", expected |-> "", observed |-> e.pan]>>]))
          /\ cnt' = [cnt EXCEPT !.bad = @ + 1]
     ELSE \E d \in {Diffs(e)} :
          /\ IF d = {} THEN TRUE ELSE PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> e.n, ev |-> e.ev, diffs |-> SetToSeq(d)]))
          /\ cnt' = [cnt EXCEPT !.schemas = @ + 1, !.comps = @ + Cardinality(DOMAIN e.comps[2]), !.looks = @ + Len(e.looks), !.bad = @ + (IF d = {} THEN 0 ELSE 1)]

Init == l = 1 /\ cnt = [scen |-> 0, schemas |-> 0, comps |-> 0, looks |-> 0, bad |-> 0]
Finish == l > Len(Trace) /\ PrintT("@#" \o ToJson(cnt)) /\ UNCHANGED vars /\ FALSE
Spec == Init /\ [][Consume \/ Finish]_vars
Consumed == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
