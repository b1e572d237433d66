--------------------------------- MODULE JV ---------------------------------
(***************************************************************************)
(* JSON values as tagged tuples, and the string and function helpers that  *)
(* every other module of the specification uses.                           *)
(*                                                                         *)
(*   <<"s", string>>  <<"n", decimal text>>  <<"b", BOOLEAN>>  <<"z">>      *)
(*   <<"a", sequence of values>>   <<"o", function from keys to values>>    *)
(*                                                                         *)
(* Values of different JSON types differ in their first component, so TLC  *)
(* can compare any two of them.                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Str(s) == <<"s", s>>
Num(n) == <<"n", n>>
Bool(b) == <<"b", b>>
Null == <<"z">>
Arr(q) == <<"a", q>>
Obj(f) == <<"o", f>>
Empty == <<>>                      \* the function with an empty domain
EmptyObj == Obj(Empty)

IsStr(v) == v[1] = "s"
IsNum(v) == v[1] = "n"
IsBool(v) == v[1] = "b"
IsNull(v) == v[1] = "z"
IsArr(v) == v[1] = "a"
IsObj(v) == v[1] = "o"
True(v) == v[1] = "b" /\ v[2] = TRUE

Has(f, k) == k \in DOMAIN f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
PutIf(c, f, k, v) == IF c THEN (k :> v) @@ f ELSE f
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Only(f, K) == [x \in DOMAIN f \cap K |-> f[x]]
Over(f, g) == g @@ f                \* g wins
Range0(q) == {q[i] : i \in DOMAIN q}

\* Left fold.
FoldSeq0(op(_, _), acc, q) == FoldLeft(op, acc, q)

SeqMap(op(_), q) == [i \in DOMAIN q |-> op(q[i])]

RECURSIVE Concat(_)
Concat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Concat(Tail(qq))

-----------------------------------------------------------------------------
(* Strings.  TLC evaluates Len, SubSeq and \o on strings.                  *)
Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
TrimPrefix(s, p) == IF StartsWith(s, p) THEN From(s, Len(p) + 1) ELSE s

RECURSIVE IndexFrom(_, _, _)
\* Smallest j >= i such that p occurs in s at j, 0 if there is none.
IndexFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE IndexFrom(s, p, i + 1)
HasSub(s, p) == IndexFrom(s, p, 1) # 0

\* s up to (excluding) the first occurrence of p.
Before(s, p) == LET i == IndexFrom(s, p, 1) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)

RECURSIVE Split(_, _)
Split(s, p) == LET i == IndexFrom(s, p, 1)
               IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + Len(p)), p)

RECURSIVE KeepChars(_, _)
KeepChars(s, ok) ==
  IF s = "" THEN "" ELSE (IF Ch(s, 1) \in ok THEN Ch(s, 1) ELSE "") \o KeepChars(From(s, 2), ok)

Lower == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
  CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f"
    [] c = "G" -> "g" [] c = "H" -> "h" [] c = "I" -> "i" [] c = "J" -> "j" [] c = "K" -> "k" [] c = "L" -> "l"
    [] c = "M" -> "m" [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p" [] c = "Q" -> "q" [] c = "R" -> "r"
    [] c = "S" -> "s" [] c = "T" -> "t" [] c = "U" -> "u" [] c = "V" -> "v" [] c = "W" -> "w" [] c = "X" -> "x"
    [] c = "Y" -> "y" [] c = "Z" -> "z"]
RECURSIVE ToLower(_)
ToLower(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in DOMAIN Lower THEN Lower[Ch(s, 1)] ELSE Ch(s, 1)) \o ToLower(From(s, 2))

LowerLetters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
UpperLetters == DOMAIN Lower
Digits == {"0","1","2","3","4","5","6","7","8","9"}
NameChars == LowerLetters \cup UpperLetters \cup Digits \cup {".", "-", "_"}

-----------------------------------------------------------------------------
(* Walking JSON values.                                                    *)
RECURSIVE Subs(_)
\* All values inside v, v included.
Subs(v) == {v} \cup
  CASE IsArr(v) -> UNION {Subs(v[2][i]) : i \in DOMAIN v[2]}
    [] IsObj(v) -> UNION {Subs(v[2][k]) : k \in DOMAIN v[2]}
    [] OTHER -> {}
RECURSIVE RefsIn(_)
\* All strings under a "$ref" key anywhere in v.
RefsIn(v) ==
  CASE IsArr(v) -> UNION {RefsIn(v[2][i]) : i \in DOMAIN v[2]}
    [] IsObj(v) -> (IF Has(v[2], "$ref") /\ IsStr(v[2]["$ref"]) THEN {v[2]["$ref"][2]} ELSE {})
                   \cup UNION {RefsIn(v[2][k]) : k \in DOMAIN v[2]}
    [] OTHER -> {}

RECURSIVE Where(_, _, _)
\* The place of a difference of two values.
Where(at, a, b) ==
  IF a[1] = b[1] /\ (IsObj(a) \/ IsArr(a)) /\ DOMAIN a[2] = DOMAIN b[2]
  THEN LET ks == {k \in DOMAIN a[2] : a[2][k] # b[2][k]}
       IN IF ks = {} THEN at ELSE LET k == CHOOSE k \in ks : TRUE IN Where(at \o "/" \o ToString(k), a[2][k], b[2][k])
  ELSE at
RECURSIVE AtPath(_, _, _)
\* The part of a value next to its difference from another one.
Part(a, b) == AtPath(a, a, b)
AtPath(r, a, b) ==
  IF a[1] = b[1] /\ (IsObj(a) \/ IsArr(a)) /\ DOMAIN a[2] = DOMAIN b[2]
  THEN LET ks == {k \in DOMAIN a[2] : a[2][k] # b[2][k]}
       IN IF ks = {} THEN a ELSE LET k == CHOOSE k \in ks : TRUE IN AtPath(a, a[2][k], b[2][k])
  ELSE IF IsObj(a) \/ IsArr(a) THEN a ELSE r
=============================================================================
