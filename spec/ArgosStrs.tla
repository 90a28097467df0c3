------------------------------ MODULE ArgosStrs ------------------------------
(***************************************************************************)
(* Strings.  Argos works on byte strings; a byte is represented by the    *)
(* Latin-1 character with the same number, so that a TLC string is a      *)
(* sequence of bytes.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CharTab == JsonDeserialize("chars.json")     \* the 256 characters, in order
OrdTab == [c \in {CharTab[i] : i \in 1..256} |->
             (CHOOSE i \in 1..256 : CharTab[i] = c) - 1]
Ord(c) == OrdTab[c]

Ch(s, i) == SubSeq(s, i, i)
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
LastCh(s) == Ch(s, Len(s))
Chop(s) == SubSeq(s, 1, Len(s) - 1)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

 
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

(* Position of the first c in s at or after i, 0 if there is none. *)
RECURSIVE FindChar(_, _, _)
FindChar(s, c, i) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) = c THEN i ELSE FindChar(s, c, TLCEval(i + 1))
(* Position of the first character of s in the set cs at or after i. *)
RECURSIVE FindAny(_, _, _)
FindAny(s, cs, i) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) \in cs THEN i ELSE FindAny(s, cs, TLCEval(i + 1))
RECURSIVE FindNotAny(_, _, _)
FindNotAny(s, cs, i) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) \notin cs THEN i ELSE FindNotAny(s, cs, TLCEval(i + 1))
Contains(s, c) == FindChar(s, c, 1) # 0
HasAny(s, cs) == FindAny(s, cs, 1) # 0
RECURSIVE FindLastAny(_, _, _)
FindLastAny(s, cs, i) ==
    IF i = 0 THEN 0
    ELSE IF Ch(s, i) \in cs THEN i ELSE FindLastAny(s, cs, TLCEval(i - 1))

Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN ""
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN "" ELSE c \o Repeat(c, n - 1)

Upper26 == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower26 == "abcdefghijklmnopqrstuvwxyz"
LowTab == [c \in {Ch(Upper26, i) : i \in 1..26} |->
             Ch(Lower26, CHOOSE i \in 1..26 : Ch(Upper26, i) = c)]
UpperSet == DOMAIN LowTab
LowCh(c) == IF c \in UpperSet THEN LowTab[c] ELSE c
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowCh(Ch(s, i)) \o LowerFrom(s, TLCEval(i + 1))
(* ASCII letters only. *)
Lower(s) == IF HasAny(s, UpperSet) THEN LowerFrom(s, 1) ELSE s
Norm(s, ci) == IF ci THEN Lower(s) ELSE s

(* The part after the last slash or backslash. *)
BaseName(s) == Drop(s, FindLastAny(s, {"/", "\\"}, Len(s)))

(* s split at every c, at most n times if n >= 0. *)
RECURSIVE SplitAt(_, _, _)
SplitAt(s, c, n) ==
    LET p == FindChar(s, c, 1) IN
    IF p = 0 \/ n = 0 THEN << s >>
    ELSE << Take(s, p - 1) >> \o SplitAt(Drop(s, p), c, n - 1)

(* Unsigned lexicographic comparison of byte strings. *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, TLCEval(i + 1))
    ELSE Ord(Ch(a, i)) < Ord(Ch(b, i))
Less(a, b) == LessFrom(a, b, 1)

(* Sequences *)
Range(q) == {q[i] : i \in 1..Len(q)}
IndexOf(q, e) == IF \E i \in 1..Len(q) : q[i] = e
                 THEN CHOOSE i \in 1..Len(q) : q[i] = e /\ \A j \in 1..(i - 1) : q[j] # e
                 ELSE 0
Count(q, e) == Cardinality({i \in 1..Len(q) : q[i] = e})
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
=============================================================================
