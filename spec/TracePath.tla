------------------------------ MODULE TracePath ------------------------------
(***************************************************************************)
(* Recorded readings of methods and path patterns against PathT.           *)
(***************************************************************************)
EXTENDS PathT, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
Prop == IOEnv.VH_PROP

VARIABLES l, cnt
vars == <<l, cnt>>

Good(r) ==
  LET s == Sanitize(r.m, r.p)
  IN /\ r.pan = "" /\ r.ok = s.ok
     /\ s.ok => /\ r.method = s.method /\ r.clean = s.path /\ r.names = s.names
                /\ r.again = s.path
Expected(r) == LET s == Sanitize(r.m, r.p) IN [ok |-> s.ok, method |-> s.method, clean |-> s.path, names |-> s.names]

Report0(e, bad) ==
  IF bad = {} THEN TRUE
  ELSE LET i == CHOOSE j \in bad : \A k \in bad : Len(e.rs[j].p) <= Len(e.rs[k].p)
       IN PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> i, ev |-> "paths",
                 diffs |-> <<[aspect |-> "path", at |-> e.rs[i].m \o " " \o e.rs[i].p, expected |-> ToJson(Expected(e.rs[i])), observed |-> ToJson(e.rs[i])]>>]))

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Trace[l].ev = "begin" THEN cnt' = [cnt EXCEPT !.scen = @ + 1]
     ELSE IF Trace[l].ev = "crash" THEN
          /\ PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> 0, ev |-> "crash",
                    diffs |-> <<[aspect |-> "panic", at |-> "process", expected |-> "", observed |-> Trace[l].pan]>>]))
          /\ cnt' = [cnt EXCEPT !.bad = @ + 1]
     ELSE \E bad \in {{i \in DOMAIN Trace[l].rs : ~Good(Trace[l].rs[i])}} :
            /\ Report0(Trace[l], bad)
            /\ cnt' = [cnt EXCEPT !.paths = @ + Len(Trace[l].rs), !.bad = @ + Cardinality(bad),
                                  !.placeholders = @ + Cardinality({i \in DOMAIN Trace[l].rs : Trace[l].rs[i].names # <<>>})]

Init == l = 1 /\ cnt = [scen |-> 0, paths |-> 0, bad |-> 0, placeholders |-> 0]
Finish == l > Len(Trace) /\ PrintT("@#" \o ToJson(cnt)) /\ UNCHANGED vars /\ FALSE
Spec == Init /\ [][Consume \/ Finish]_vars
Consumed == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
