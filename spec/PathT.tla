-------------------------------- MODULE PathT --------------------------------
(***************************************************************************)
(* Path patterns and HTTP methods.                                         *)
(*                                                                         *)
(* A placeholder starts at an opening brace, has a non-empty name without  *)
(* closing brace and colon, optionally a colon with a non-empty pattern    *)
(* without closing brace, and a closing brace.  Scanning is left to right, *)
(* the scan continues after a placeholder.                                 *)
(***************************************************************************)
EXTENDS JV

Methods == {"get", "put", "post", "delete", "options", "head", "patch", "trace"}
NormMethod(m) == ToLower(m)
ValidMethod(m) == NormMethod(m) \in Methods

RECURSIVE SpanNot(_, _, _)
\* First index >= i whose character is in stop, Len(s)+1 if there is none.
SpanNot(s, i, stop) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in stop THEN i ELSE SpanNot(s, i + 1, stop)

\* Placeholder starting at i: [end |-> index after it, name |-> ..], end = 0 if there is none.
PlaceAt(s, i) ==
  LET none == [end |-> 0, name |-> ""]
  IN IF Ch(s, i) # "{" THEN none
     ELSE LET j == SpanNot(s, i + 1, {"}", ":"})
          IN IF j > Len(s) \/ j = i + 1 THEN none
             ELSE IF Ch(s, j) = "}" THEN [end |-> j + 1, name |-> SubSeq(s, i + 1, j - 1)]
             ELSE LET k == SpanNot(s, j + 1, {"}"})
                  IN IF k > Len(s) \/ k = j + 1 THEN none
                     ELSE [end |-> k + 1, name |-> SubSeq(s, i + 1, j - 1)]

RECURSIVE ScanFrom(_, _)
ScanFrom(s, i) ==
  IF i > Len(s) THEN [clean |-> "", names |-> <<>>]
  ELSE LET p == PlaceAt(s, i)
       IN IF p.end = 0
          THEN LET r == ScanFrom(s, i + 1) IN [clean |-> Ch(s, i) \o r.clean, names |-> r.names]
          ELSE LET r == ScanFrom(s, p.end)
               IN [clean |-> "{" \o p.name \o "}" \o r.clean, names |-> <<p.name>> \o r.names]

Scan(s) == ScanFrom(s, 1)
CleanPath(s) == Scan(s).clean
PathNames(s) == Range0(Scan(s).names)

Sanitize(m, p) ==
  IF ValidMethod(m) THEN [ok |-> TRUE, method |-> NormMethod(m), path |-> Scan(p).clean, names |-> Scan(p).names]
  ELSE [ok |-> FALSE, method |-> "", path |-> "", names |-> <<>>]

\* Design-level properties of the scanner, checked over all short strings by MCPath.
Idempotent(s) == LET r == Scan(s) IN Scan(r.clean) = r
NamesWellFormed(s) == \A n \in Range0(Scan(s).names) : n # "" /\ ~HasSub(n, "}") /\ ~HasSub(n, ":")
OnlyPatternsRemoved(s) == Len(Scan(s).clean) <= Len(s)
=============================================================================
