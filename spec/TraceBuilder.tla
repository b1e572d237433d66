----------------------------- MODULE TraceBuilder -----------------------------
(***************************************************************************)
(* Recorded builder calls against Builder (C18).                           *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
Table == ndJsonDeserialize(IOEnv.VH_TABLE)
Prop == IOEnv.VH_PROP
Fields == [n \in {Table[i].type : i \in DOMAIN Table} |-> (CHOOSE i \in DOMAIN Table : Table[i].type = n)]

VARIABLES l, ty, st, cnt
vars == <<l, ty, st, cnt>>

Wrong(aspect, at, exp, obs) == {[aspect |-> aspect, at |-> at, expected |-> exp, observed |-> obs]}
Differ(aspect, at, exp, obs) == IF exp = obs THEN {} ELSE Wrong(aspect, at \o Where("", exp, obs), ToJson(Part(exp, obs)), ToJson(Part(obs, exp)))

\* Keys of items that are named by HTTP methods are in lower case.
Key(m, args) == IF m = "WithOperation" THEN <<Str(ToLower(args[1][2])), args[2]>> ELSE args

Diffs(e, fs, d, want) ==
  LET at == Table[ty].type \o " " \o e.m
      args == Arr(e.args)
  IN IF e.pan # "" THEN Wrong("panic", at, "", e.pan)
     ELSE Differ("members", at, Obj(want), e.state)
          \cup Differ("arguments", at, args, Arr(e.args2))
          \cup (IF Fluent(d) => e.self THEN {} ELSE Wrong("returns", at, "the receiver", "something else"))
          \cup (IF d.op = "ens" => e.same THEN {} ELSE Wrong("returns", at, "the member", "something else"))
          \cup (IF d.op = "ens" /\ e.same THEN Differ("returns", at, want[d.f], e.ret) ELSE {})

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "begin" THEN
          /\ cnt' = [cnt EXCEPT !.scen = @ + 1]
          /\ ty' = IF Has(e, "type") THEN Fields[e.type] ELSE 1
          /\ st' = IF Has(e, "type") THEN e.state[2] ELSE Empty
     ELSE IF e.ev = "crash" THEN
          /\ PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> 0, ev |-> "crash", diffs |-> <<[aspect |-> "panic", at |-> "process", expected |-> "", observed |-> e.pan]>>]))
          /\ cnt' = [cnt EXCEPT !.bad = @ + 1]
          /\ UNCHANGED <<ty, st>>
     ELSE \E fs \in {Table[ty].fields} : \E d \in {Method(fs, e.m)} :
          IF d.op = "none" THEN
            /\ st' = e.state[2]
            /\ cnt' = [cnt EXCEPT !.unnamed = @ + 1]
            /\ ty' = ty
          ELSE \E want \in {Apply(Table[ty].type, fs, st, d, Key(e.m, e.args))} : \E dd \in {Diffs(e, fs, d, want)} :
            /\ IF dd = {} THEN TRUE ELSE PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> e.n, ev |-> e.ev, diffs |-> SetToSeq(dd)]))
            /\ cnt' = [cnt EXCEPT !.calls = @ + 1, !.sets = @ + (IF d.op = "set" THEN 1 ELSE 0), !.items = @ + (IF d.op = "item" THEN 1 ELSE 0),
                                  !.ens = @ + (IF d.op = "ens" THEN 1 ELSE 0), !.bad = @ + (IF dd = {} THEN 0 ELSE 1)]
            /\ st' = e.state[2]
            /\ ty' = ty

Init == l = 1 /\ ty = 1 /\ st = Empty /\ cnt = [scen |-> 0, calls |-> 0, sets |-> 0, items |-> 0, ens |-> 0, unnamed |-> 0, bad |-> 0]
Finish == l > Len(Trace) /\ PrintT("@#" \o ToJson(cnt)) /\ UNCHANGED vars /\ FALSE
Spec == Init /\ [][Consume \/ Finish]_vars
Consumed == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
