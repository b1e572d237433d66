------------------------------ MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Recorded decodings and encodings against Codec: what is accepted (C13), *)
(* what is kept (C11), and that YAML carries the same document (C12).      *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
Prop == IOEnv.VH_PROP

VARIABLES l, cnt
vars == <<l, cnt>>

Noted(aspect, at, exp, obs, note) == {[aspect |-> aspect, at |-> at, expected |-> exp, observed |-> obs, note |-> note]}
Wrong(aspect, at, exp, obs) == Noted(aspect, at, exp, obs, "")
Differ(aspect, e, exp, obs) == IF exp = obs THEN {} ELSE Wrong(aspect, e.v \o " " \o e.kind \o Where("", exp, obs), ToJson(Part(exp, obs)), ToJson(Part(obs, exp)))

Diffs(e) ==
  LET ok == OKKind(e.v, e.kind, e.in)
      c == CanonKind(e.v, e.kind, e.in)
  IN IF e.pan # "" THEN Wrong("panic", e.v \o " " \o e.kind, "", e.pan)
     ELSE CASE Prop = "C13" -> IF e.ok = ok THEN {} ELSE Noted("accept", e.v \o " " \o e.kind \o " " \o ToJson(e.in), ToString(ok), ToString(e.ok), e.err)
            [] Prop = "C11" -> IF ok /\ e.ok THEN Differ("out", e, c, e.out) \cup Differ("again", e, c, e.again) ELSE {}
            [] Prop = "C12" ->
                 IF ~e.y \/ ~ok \/ ~e.ok THEN {}
                 ELSE IF ~e.yok THEN Noted("yaml", e.v, "TRUE", "FALSE", e.err)
                 ELSE Differ("yaml in", e, e.out, e.yin) \cup Differ("yaml out", e, e.out, e.yout) \cup Differ("yaml back", e, e.out, e.yback)
                      \cup (IF e.ykeys = e.jkeys THEN {} ELSE Wrong("yaml order", e.v, ToJson(e.jkeys), ToJson(e.ykeys)))

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "begin" THEN cnt' = [cnt EXCEPT !.scen = @ + 1]
     ELSE IF e.ev = "crash" THEN
          /\ PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> 0, ev |-> "crash", diffs |-> <<[aspect |-> "panic", at |-> "process", expected |-> "", observed |-> e.pan]>>]))
          /\ cnt' = [cnt EXCEPT !.bad = @ + 1]
     ELSE \E d \in {Diffs(e)} :
          /\ IF d = {} THEN TRUE ELSE PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> e.n, ev |-> e.ev, diffs |-> SetToSeq(d)]))
          /\ cnt' = [cnt EXCEPT !.objects = @ + 1, !.accepted = @ + (IF e.ok THEN 1 ELSE 0), !.yaml = @ + (IF e.y THEN 1 ELSE 0), !.bad = @ + (IF d = {} THEN 0 ELSE 1)]

Init == l = 1 /\ cnt = [scen |-> 0, objects |-> 0, accepted |-> 0, yaml |-> 0, bad |-> 0]
Finish == l > Len(Trace) /\ PrintT("@#" \o ToJson(cnt)) /\ UNCHANGED vars /\ FALSE
Spec == Init /\ [][Consume \/ Finish]_vars
Consumed == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
