------------------------------- MODULE MCPath -------------------------------
(***************************************************************************)
(* Design level check of PathT over all strings up to a length.            *)
(***************************************************************************)
EXTENDS PathT, IOUtils
Chars == {"a", "b", "{", "}", ":", "/"}
Depth == atoi(IOEnv.VH_DEPTH)
VARIABLE s
Init == s = ""
Next == Len(s) < Depth /\ \E c \in Chars : s' = s \o c
Spec == Init /\ [][Next]_s

InvIdempotent == Idempotent(s)
InvNames == NamesWellFormed(s)
InvShorter == OnlyPatternsRemoved(s)
\* Without a colon nothing is removed.
InvPlain == ~HasSub(s, ":") => Scan(s).clean = s
\* A path that has no placeholder stays.
InvNoPlace == Scan(s).names = <<>> => Scan(s).clean = s
\* Spelling of a method does not matter.
InvMethods == \A m \in Methods : ValidMethod(m) /\ NormMethod(m) = m
=============================================================================
