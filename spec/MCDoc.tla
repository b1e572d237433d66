-------------------------------- MODULE MCDoc --------------------------------
(***************************************************************************)
(* All histories up to a length over an alphabet of calls (each a short    *)
(* sequence of events, such as one whole registration).  Checks the design *)
(* level properties on every state and transition, and prints every        *)
(* transition as the history that takes it, to be replayed on the library. *)
(***************************************************************************)
EXTENDS Doc

Alphabet == ndJsonDeserialize(IOEnv.VH_CMDS)
Depth == atoi(IOEnv.VH_DEPTH)
Version == IOEnv.VH_V

VARIABLES st, hist, good
vars == <<st, hist, good>>

\* Calls on a context that was never made do not happen.
Applies(s, e) == ~Has(e, "c") \/ e.ev = "new" \/ Has(s.ctxs, e.c)
OnlyHere(s, e) == ~((e.ev \in {"hook", "spechook"} /\ s.v = "3") \/ (e.ev = "legacy" /\ s.v = "31"))

Exec(a, e) ==
  IF ~Applies(a.st, e) \/ ~OnlyHere(a.st, e) THEN a
  ELSE LET r == Step(a.st, e, {})
       IN [st |-> r.st, good |-> a.good /\ Frame(a.st, e, r) /\ CompsStable(a.st, r)]
Macro(s, q) == LET a == FoldLeft(Exec, [st |-> s, good |-> TRUE], q) IN [a EXCEPT !.st.ctxs = Empty]

Init == st = InitDoc(Version) /\ hist = <<>> /\ good = TRUE
Next == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN Alphabet : \E a \in {Macro(st, Alphabet[i].q)} :
             /\ st' = a.st /\ good' = a.good /\ hist' = Append(hist, i)
             /\ PrintT("@%" \o ToJson(Append(hist, i)))
Spec == Init /\ [][Next]_vars

\* The history is how the state was reached, not part of it.
View == <<st, good>>

\* C01, C04, C09
Framed == good
\* C03, C02, C08, C24
InvParams == OpsMatchPaths(st)
InvKeys == KeysClean(st)
InvRefs == RefsResolve(st)
InvNames == NamesValid(st)
InvExport == ExportsSelfContained(st)
=============================================================================
