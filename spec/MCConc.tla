-------------------------------- MODULE MCConc --------------------------------
(***************************************************************************)
(* Independent reflectors: processes that each take the steps of their own *)
(* program on their own document.  All interleavings are explored and      *)
(* printed as schedules (sequences of process numbers) for replay.         *)
(***************************************************************************)
EXTENDS Doc

Programs == ndJsonDeserialize(IOEnv.VH_CMDS)     \* [v |-> version, q |-> sequence of events]
Procs == DOMAIN Programs

VARIABLES docs, pos, sched
vars == <<docs, pos, sched>>

Applies(s, e) == ~Has(e, "c") \/ e.ev = "new" \/ Has(s.ctxs, e.c)
OnlyHere(s, e) == ~((e.ev \in {"hook", "spechook"} /\ s.v = "3") \/ (e.ev = "legacy" /\ s.v = "31"))
Exec(s, e) == IF Applies(s, e) /\ OnlyHere(s, e) THEN Step(s, e, {}).st ELSE s

\* What a process has after n steps when nobody else is there.
Alone(p, n) == FoldLeft(Exec, InitDoc(Programs[p].v), SubSeq(Programs[p].q, 1, n))
AloneTable == [p \in Procs |-> [n \in 0..Len(Programs[p].q) |-> Alone(p, n)]]
Reference == TLCEval(AloneTable)

Init == docs = [p \in Procs |-> InitDoc(Programs[p].v)] /\ pos = [p \in Procs |-> 0] /\ sched = <<>>
Next ==
  \E p \in Procs :
    /\ pos[p] < Len(Programs[p].q)
    /\ docs' = [docs EXCEPT ![p] = Exec(@, Programs[p].q[pos[p] + 1])]
    /\ pos' = [pos EXCEPT ![p] = @ + 1]
    /\ sched' = Append(sched, p)
    /\ IF \A q \in Procs : pos'[q] = Len(Programs[q].q) THEN PrintT("@%" \o ToJson(sched')) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* C17: a document depends on the program of its own process only.
InvIndependent == \A p \in Procs : docs[p] = Reference[p][pos[p]]
\* A step of one process changes one document at most.
OneAtATime == [][\E p \in Procs : \A q \in Procs \ {p} : docs'[q] = docs[q]]_vars
=============================================================================
