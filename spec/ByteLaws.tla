------------------------------ MODULE ByteLaws ------------------------------
(***************************************************************************)
(* What the definitions of ByteAlgebra.tla must satisfy, for all pairs of  *)
(* short byte strings, and how a byte string is made of an integer: its    *)
(* bytes are split off lowest first. Form names what is done: "plain";     *)
(* "big" (highest first), "signed" (the rest filled with the sign),        *)
(* "whole" (a width taken as whole words, the last bytes dropped),         *)
(* "nibbles" (digits in the wrong order), "swapped" (concatenation the     *)
(* other way), "short" (comparison over the shorter length), "ored" (bits  *)
(* joined, not added).                                                     *)
(***************************************************************************)
EXTENDS ByteAlgebra, FiniteSets, TLC
CONSTANTS Digits, MaxLen, Form
VARIABLES a, b, rest, made
vars == <<a, b, rest, made>>

Strings == UNION {{Tup(f) : f \in [1..n -> Digits]} : n \in 0..MaxLen}
Value(x) == LENat(x)
Width == MaxLen + 1        \* of the byte string made from the integer Value(Given)
Head1(x) == IF x = << >> THEN << >> ELSE <<x[1]>>
Given == a \o Head1(b)

Joined(x, y) == IF Form = "swapped" THEN y \o x ELSE x \o y
Same(x, y) == IF Form = "short"
              THEN \A i \in 1..(IF Len(x) < Len(y) THEN Len(x) ELSE Len(y)) : x[i] = y[i]
              ELSE x = y
RECURSIVE OrBits(_, _, _)
OrBits(x, y, k) == IF k = 0 THEN 0
                   ELSE (IF (x % 2) + (y % 2) > 0 THEN 1 ELSE 0) + 2 * OrBits(x \div 2, y \div 2, k - 1)
Xored(x, y) == IF Form = "ored" THEN Tup([i \in 1..Len(x) |-> OrBits(x[i], y[i], 8)]) ELSE Xor(x, y)
Printed(x) == IF Form = "nibbles"
              THEN <<48, 120>> \o Tup([i \in 1..(2 * Len(x)) |-> HexText(x)[2 + (IF i % 2 = 1 THEN i + 1 ELSE i - 1)]])
              ELSE HexText(x)

Init == a \in Strings /\ b \in Strings /\ rest = Value(a \o Head1(b)) /\ made = << >>
Byte1 == rest % 256
Negative == Given # << >> /\ Given[Len(Given)] >= 128
Split == /\ Len(made) < Width
         /\ made' = LET x == CASE Form = "whole" /\ Len(made) + 1 > (Width \div 2) * 2 -> 0
                               [] Form = "signed" /\ Len(made) >= Len(Given) /\ Negative -> 255
                               [] OTHER -> Byte1
                    IN IF Form = "big" THEN <<x>> \o made ELSE Append(made, x)
         /\ rest' = rest \div 256
         /\ UNCHANGED <<a, b>>
Next == Split
Spec == Init /\ [][Next]_vars

FromInteger == Len(made) = Width => made = FromInt(Given, Width) /\ Value(made) = Value(Given)
Text == LET p == Parse(Printed(a), Len(a)) IN p.is = "ok" /\ p.b = a
Longer == LET p == Parse(Printed(a), Len(a) + 1) IN p.is = "ok" /\ p.b = PadTo(a, Len(a) + 1)
Refused == Len(a) > 0 => Parse(Printed(a), Len(a) - 1).is = "no"
Order == LET j == Joined(a, b) IN /\ Len(j) = Len(a) + Len(b)
                                  /\ \A i \in 1..Len(j) : j[i] = IF i <= Len(a) THEN a[i] ELSE b[i - Len(a)]
Parts == Joined(a, b) = Joined(b, a) => Len(a) = 0 \/ Len(b) = 0 \/ SubSeq(Joined(a, b), 1, 1) = SubSeq(b, 1, 1)
Equal == Same(a, b) <=> (Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i])
Undone == Len(a) = Len(b) => /\ Xored(Xored(a, b), b) = a
                             /\ Xored(a, b) = Xored(b, a)
                             /\ (Xored(a, b) = Zeros(Len(a))) = (a = b)
=============================================================================
