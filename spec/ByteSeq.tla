------------------------------ MODULE ByteSeq ------------------------------
(***************************************************************************)
(* Byte strings and the unsigned integers they denote (little-endian).     *)
(* TLC's integers have 32 bits, so every 64-bit quantity of the system     *)
(* stays a sequence of bytes here, and arithmetic is done limb by limb.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Byte == 0..255

\* the same sequence; TLC keeps it as a tuple instead of re-evaluating its elements
Tup(s) == s \o << >>
\* F applied to the value of x, evaluated once (TLC re-evaluates operator arguments)
Force(F(_), x) == CHOOSE r \in { F(y) : y \in {x} } : TRUE

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ps, lo, hi) == IF lo > hi THEN << >> ELSE IF lo = hi THEN ps[lo]
                        ELSE LET mid == (lo + hi) \div 2 IN JoinFrom(ps, lo, mid) \o JoinFrom(ps, mid + 1, hi)
\* the concatenation of a sequence of byte strings
Join(ps) == JoinFrom(ps, 1, Len(ps))

Zeros(n) == Tup([i \in 1..n |-> 0])

IsBytes(b) == \A i \in 1..Len(b) : b[i] \in Byte

\* b followed by zeros up to length n
PadTo(b, n) == Tup([i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0])

RECURSIVE NatLE(_, _)
\* the k low bytes of the natural number n, least significant first
NatLE(n, k) == IF k = 0 THEN << >> ELSE <<n % 256>> \o NatLE(n \div 256, k - 1)

CapNat == 1073741823   \* 2^30 - 1: larger values are all reported as this one

RECURSIVE LENatFrom(_, _, _)
LENatFrom(b, i, acc) ==
    IF i = 0 THEN acc
    ELSE IF acc > 4194302 THEN CapNat
    ELSE LENatFrom(b, i - 1, acc * 256 + b[i])
\* the number denoted by b, or CapNat when it does not fit
LENat(b) == LENatFrom(b, Len(b), 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN 0 - 1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpFrom(a, b, i - 1)
\* order of two numbers of the same width
LtLE(a, b) == CmpFrom(a, b, Len(a)) < 0
LeLE(a, b) == CmpFrom(a, b, Len(a)) <= 0

IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
IsMax(b) == \A i \in 1..Len(b) : b[i] = 255

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
    IF i > Len(a) THEN IF carry = 0 THEN << >> ELSE <<carry>>
    ELSE LET s == a[i] + b[i] + carry
         IN <<s % 256>> \o AddFrom(a, b, i + 1, s \div 256)
\* sum of two numbers of the same width; one byte longer on overflow
AddLE(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) ==
    IF i > Len(a) THEN 0
    ELSE (IF k - i + 1 \in 1..Len(b) THEN a[i] * b[k - i + 1] ELSE 0) + ColSum(a, b, k, i + 1)
RECURSIVE MulCols(_, _, _, _)
MulCols(a, b, k, carry) ==
    IF k > Len(a) + Len(b) THEN << >>
    ELSE LET s == ColSum(a, b, k, 1) + carry
         IN <<s % 256>> \o MulCols(a, b, k + 1, s \div 256)
\* full product, Len(a) + Len(b) bytes
MulLE(a, b) == MulCols(a, b, 1, 0)

RECURSIVE BitLen8(_)
BitLen8(x) == IF x = 0 THEN 0 ELSE 1 + BitLen8(x \div 2)
RECURSIVE BitLenFrom(_, _)
BitLenFrom(b, i) ==
    IF i = 0 THEN 0
    ELSE IF b[i] # 0 THEN 8 * (i - 1) + BitLen8(b[i])
    ELSE BitLenFrom(b, i - 1)
\* number of bits needed to write the number
BitLenLE(b) == BitLenFrom(b, Len(b))

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

IsPow2LE(b) == \E i \in 1..Len(b) :
    /\ \E k \in 0..7 : b[i] = Pow2(k)
    /\ \A j \in 1..Len(b) : j # i => b[j] = 0

\* smallest d with 2^d >= b (0 for 0)
Log2CeilLE(b) == IF IsZero(b) THEN 0
                 ELSE IF IsPow2LE(b) THEN BitLenLE(b) - 1 ELSE BitLenLE(b)

RECURSIVE BitLenNat(_)
BitLenNat(n) == IF n = 0 THEN 0 ELSE 1 + BitLenNat(n \div 2)
Log2CeilNat(n) == IF n <= 1 THEN 0 ELSE BitLenNat(n - 1)

\* least significant bit first; n bits
BitsOf(x, n) == Tup([k \in 1..n |-> (x \div Pow2(k - 1)) % 2])

RECURSIVE DivSmall(_, _, _, _)
DivSmall(b, d, i, rem) ==   \* <<quotient bytes (most significant first), remainder>>
    IF i = 0 THEN << << >>, rem >>
    ELSE LET cur == rem * 256 + b[i]
             rest == DivSmall(b, d, i - 1, cur % d)
         IN << <<cur \div d>> \o rest[1], rest[2] >>
RECURSIVE DecDigitsRev(_)
DecDigitsRev(b) ==
    LET qr == DivSmall(b, 10, Len(b), 0)
        q == Reverse(qr[1])
    IN IF IsZero(q) THEN <<qr[2]>> ELSE <<qr[2]>> \o DecDigitsRev(q)
\* decimal digits, most significant first
DecDigits(b) == Reverse(DecDigitsRev(b))
\* which of a pool of n things stands at place i (from 0) of what c describes: the first of them in the range c.z,
\* which may go round the end, elsewhere with a stride
InRange(i, z) == IF z[1] <= z[2] THEN i \in z[1]..(z[2] - 1) ELSE i < z[2] \/ i >= z[1]
PoolIndex(c, i, n) == IF InRange(i, c.z) THEN 1 ELSE ((c.s + i * c.k) % n) + 1
=============================================================================
