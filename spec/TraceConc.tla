------------------------------- MODULE TraceConc -------------------------------
(***************************************************************************)
(* Recorded runs of several processes against what each of them does on    *)
(* its own (C17).  A process is what it showed when it ran alone: its      *)
(* observation after each step.  A concurrent run has to be an             *)
(* interleaving of these, and a finished document shows every reader what  *)
(* it shows a single one.                                                  *)
(***************************************************************************)
EXTENDS JV, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VH_TRACE)
Prop == IOEnv.VH_PROP

VARIABLES l, base, pos, cnt
vars == <<l, base, pos, cnt>>

Wrong(aspect, at, exp, obs) == {[aspect |-> aspect, at |-> at, expected |-> ToJson(exp), observed |-> ToJson(obs)]}

Steps(part) == IF Has(base.steps, part) THEN base.steps[part] ELSE <<>>
At(part) == Get(pos, part, 0)
Reads(part) == Get(base.reads, part, Empty)

Diffs(e) ==
  CASE e.ev = "step" ->
         LET i == At(e.part) + 1
             at == "process " \o ToString(e.part) \o " step " \o ToString(e.n)
         IN IF i > Len(Steps(e.part)) THEN Wrong("steps", at, "no more steps", e.n)
            ELSE LET w == Steps(e.part)[i] IN
                 IF w.n # e.n THEN Wrong("steps", at, w.n, e.n) ELSE IF w.obs # e.obs THEN Wrong("interference", at, w.obs, e.obs) ELSE {}
    [] e.ev = "read" ->
         LET w == Reads(e.part)[e.k] IN IF w = e.obs THEN {} ELSE Wrong("reading", "process " \o ToString(e.part) \o " " \o e.k, w, e.obs)
    [] e.ev = "after" ->
         LET w == Steps(e.part)[Len(Steps(e.part))].obs IN IF w = e.obs THEN {} ELSE Wrong("changed by reading", "process " \o ToString(e.part), w, e.obs)
    [] OTHER -> {}

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "begin" THEN
          /\ base' = [steps |-> Empty, reads |-> Empty] /\ pos' = Empty /\ cnt' = [cnt EXCEPT !.scen = @ + 1]
     ELSE IF e.ev = "crash" THEN
          /\ PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> 0, ev |-> "crash", diffs |-> <<[aspect |-> "panic", at |-> "process", expected |-> "", observed |-> e.pan]>>]))
          /\ cnt' = [cnt EXCEPT !.bad = @ + 1]
          /\ UNCHANGED <<base, pos>>
     ELSE IF e.ev = "alone" THEN
          /\ base' = [base EXCEPT !.steps = Put(@, e.part, Append(Steps(e.part), [n |-> e.n, obs |-> e.obs]))]
          /\ UNCHANGED <<pos, cnt>>
     ELSE IF e.ev = "read0" THEN
          /\ base' = [base EXCEPT !.reads = Put(@, e.part, Put(Reads(e.part), e.k, e.obs))]
          /\ UNCHANGED <<pos, cnt>>
     ELSE \E d \in {Diffs(e)} :
          /\ IF d = {} THEN TRUE ELSE PrintT("@@" \o ToJson([prop |-> Prop, l |-> l, n |-> Get(e, "n", 0), ev |-> e.ev, diffs |-> SetToSeq(d)]))
          /\ pos' = IF e.ev = "step" THEN Put(pos, e.part, At(e.part) + 1) ELSE pos
          /\ cnt' = [cnt EXCEPT !.steps = @ + (IF e.ev = "step" THEN 1 ELSE 0), !.reads = @ + (IF e.ev = "read" THEN 1 ELSE 0), !.bad = @ + (IF d = {} THEN 0 ELSE 1)]
          /\ base' = base

Init == l = 1 /\ base = [steps |-> Empty, reads |-> Empty] /\ pos = Empty /\ cnt = [scen |-> 0, steps |-> 0, reads |-> 0, bad |-> 0]
Finish == l > Len(Trace) /\ PrintT("@#" \o ToJson(cnt)) /\ UNCHANGED vars /\ FALSE
Spec == Init /\ [][Consume \/ Finish]_vars
Consumed == TLCGet("stats").diameter >= Len(Trace) + 1
=============================================================================
