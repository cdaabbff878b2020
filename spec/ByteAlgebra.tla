---------------------------- MODULE ByteAlgebra ----------------------------
(***************************************************************************)
(* What the fixed-length byte strings, slots, booleans and hex helpers     *)
(* compute, and the integer functions, over the byte sequences of ByteSeq. *)
(***************************************************************************)
EXTENDS ByteSeq

FromInt(v, n) == PadTo(v, n)

RECURSIVE XorBits(_, _, _)
XorBits(x, y, k) == IF k = 0 THEN 0
                    ELSE ((x + y) % 2) + 2 * XorBits(x \div 2, y \div 2, k - 1)
Xor(a, b) == Tup([i \in 1..Len(a) |-> XorBits(a[i], b[i], 8)])

DigitOf(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText(b) == <<48, 120>> \o Tup([i \in 1..(2 * Len(b)) |->
                DigitOf(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)])

IsDigit(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
ValueOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
RECURSIVE HexNumber(_, _, _)
\* digits most significant first
HexNumber(s, i, acc) == IF i > Len(s) THEN acc ELSE HexNumber(s, i + 1, acc * 16 + ValueOf(s[i]))

\* "ok" with the bytes, "no" when the text must be refused, "any" when the property leaves it open
Parse(s, n) ==
    IF Len(s) < 2 \/ SubSeq(s, 1, 2) # <<48, 120>> \/ Len(s) > 2 * n + 2
       \/ \E i \in 3..Len(s) : ~IsDigit(s[i])
    THEN [is |-> "no", b |-> << >>]
    ELSE IF Len(s) % 2 = 1 THEN [is |-> "any", b |-> << >>]
    ELSE [is |-> "ok", b |-> PadTo([i \in 1..((Len(s) - 2) \div 2) |->
                                     16 * ValueOf(s[2 * i + 1]) + ValueOf(s[2 * i + 2])], n)]

\* r is the integer square root of x: numbers of the same width
IsSqrt(r, x) ==
    LET w == Len(x)
        one == <<1>> \o Zeros(w - 1)
        next == AddLE(r, one)
        sq == MulLE(r, r)
        sq1 == MulLE(next, next)
    IN /\ LeLE(sq, PadTo(x, Len(sq)))
       /\ LtLE(PadTo(x, Len(sq1)), sq1)
=============================================================================
