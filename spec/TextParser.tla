----------------------------- MODULE TextParser -----------------------------
(***************************************************************************)
(* Design of the parser of byte strings, against SszObject!BytesText: the  *)
(* prefix is checked, then the length, then two digits at a time are       *)
(* written into Width zero bytes. Checks names what is checked: "prefix",      *)
(* "digits", "length" (at most 2N+2 characters), "loose" (at most 2N+3).   *)
(***************************************************************************)
EXTENDS SszObject
CONSTANTS Width, Chars, MaxText, Checks

VARIABLES text, pos, arr, res
vars == <<text, pos, arr, res>>

RECURSIVE Spell(_)
Spell(n) == IF n = 0 THEN {""} ELSE {c \o s : c \in Chars, s \in Spell(n - 1)}
Texts == UNION {Spell(n) : n \in 0..MaxText}
Has(c) == c \in Checks

Init == text \in Texts /\ pos = 0 /\ arr = Zeros(Width) /\ res = "run"
Fail == res' = "bad" /\ UNCHANGED <<text, pos, arr>>
Start ==
    /\ pos = 0
    /\ IF Has("prefix") /\ ~Prefixed(text) THEN Fail
       ELSE IF (Has("length") /\ Len(text) > 2 * Width + 2) \/ (Has("loose") /\ Len(text) > 2 * Width + 3) THEN Fail
       ELSE pos' = 2 /\ UNCHANGED <<text, arr, res>>
Digit(i) == IF i > Len(text) THEN 0 ELSE IF IsHexAt(text, i) THEN NibbleOf[CharAt(text, i)] ELSE 0
Pair ==
    /\ pos >= 2 /\ pos < Len(text)
    /\ LET last == IF pos + 2 <= Len(text) THEN pos + 2 ELSE Len(text)
           k == pos \div 2
           b == IF last = pos + 2 THEN 16 * Digit(pos + 1) + Digit(pos + 2) ELSE Digit(pos + 1)
       IN IF Has("digits") /\ \E i \in (pos + 1)..last : ~IsHexAt(text, i) THEN Fail
          ELSE IF k > Width THEN res' = "wild" /\ UNCHANGED <<text, pos, arr>>
          ELSE arr' = [arr EXCEPT ![k] = b] /\ pos' = pos + 2 /\ UNCHANGED <<text, res>>
Done == pos >= 2 /\ pos >= Len(text) /\ res' = "ok" /\ UNCHANGED <<text, pos, arr>>
Next == res = "run" /\ (Start \/ Pair \/ Done)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == res # "wild"
AgreesWithText == LET t == BytesText(Width, text)
          IN res \in {"ok", "bad"} /\ t.s # "any" => res = t.s /\ (res = "ok" => arr = t.v)
Finishes == <>(res # "run")
\* what is printed for a value is read back as it
Printed(v) == HexText(v)
ReadsBack == res = "ok" => LET t == BytesText(Width, Printed(arr)) IN t.s = "ok" /\ t.v = arr
=============================================================================
