------------------------------- MODULE SszGen -------------------------------
(***************************************************************************)
(* Random values of a type, their encodings and damaged encodings: the     *)
(* inputs that SszScenarios.tla strings together into histories.           *)
(***************************************************************************)
EXTENDS Phase0, TLC

Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(1..Len(s))]

RandBytes(n) == Tup([i \in 1..n |-> RandomElement(Byte)])

\* integers that sit on interesting boundaries, or random ones
RandUint(n) ==
    LET c == Pick(1..8)
        p == Pick(1..n)
        r == RandBytes(n)
    IN CASE c = 1 -> Zeros(n)
         [] c = 2 -> Tup([i \in 1..n |-> 255])
         [] c = 3 -> Tup([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
         [] c = 4 -> Tup([i \in 1..n |-> IF i = p THEN 128 ELSE 0])
         [] c = 5 -> Tup([i \in 1..n |-> IF i < p THEN 255 ELSE 0])
         [] OTHER -> r
RandBits(n) ==
    LET c == Pick(1..6)
        p == IF n = 0 THEN 1 ELSE Pick(1..n)
        r == Tup([i \in 1..n |-> RandomElement({0, 1})])
    IN CASE c = 1 -> Zeros(n)
         [] c = 2 -> Tup([i \in 1..n |-> 1])
         [] c = 3 -> Tup([i \in 1..n |-> IF i = p THEN 1 ELSE 0])
         [] OTHER -> r

BitLens == {0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257,
            300, 511, 512, 513, 1023, 1024, 2047, 2048}
BasicLens == {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 31, 32, 33, 40, 65}
PartLens == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17}
LimValue(lim) == IF lim.k = "nat" THEN {lim.v, Max2(lim.v, 1) - 1} ELSE {}
\* element counts to try: m bounds the size of the whole
LenChoices(t, m) ==
    LET base == IF t.k = "bitlist" THEN BitLens
                ELSE IF IsBasic(t.t) THEN BasicLens
                ELSE IF IsFixed(t.t) THEN PartLens ELSE {0, 1, 2, 3, 4, 5}
        cap == IF t.k = "bitlist" THEN 40 * m
               ELSE IF IsBasic(t.t) THEN 5 * m
               ELSE IF IsFixed(t.t) THEN (m * 30) \div FixedSize(t.t) + 2 ELSE m \div 3 + 1
    IN { n \in base \cup LimValue(t.lim) : n <= cap /\ WithinLimit(n, t.lim) }

RECURSIVE RandVal(_, _)
RandVal(t, m) ==
    CASE t.k = "uint" -> RandUint(t.n)
      [] t.k = "bytes" -> LET c == Pick(1..6) IN IF c = 1 THEN Zeros(t.n) ELSE RandBytes(t.n)
      [] t.k = "bool" -> RandomElement({0, 1})
      [] t.k = "bitvec" -> RandBits(t.n)
      [] t.k = "bitlist" -> RandBits(Pick(LenChoices(t, m)))
      [] t.k = "vec" -> Tup([i \in 1..t.n |-> RandVal(t.t, m)])
      [] t.k = "list" -> LET n == Pick(LenChoices(t, m))
                         IN Tup([i \in 1..n |-> RandVal(t.t, (m + 1) \div 2)])
      [] t.k = "cont" -> Tup([i \in 1..Len(t.fs) |-> RandVal(t.fs[i].t, m)])

\* every variable-size part of t that holds n elements (or as many as allowed)
RECURSIVE SizedVal(_, _)
SizedVal(t, n) ==
    CASE t.k \in {"uint", "bytes", "bool", "bitvec"} -> RandVal(t, 1)
      [] t.k = "bitlist" -> RandBits(IF WithinLimit(n, t.lim) THEN n ELSE t.lim.v)
      [] t.k = "vec" -> Tup([i \in 1..t.n |-> SizedVal(t.t, n)])
      [] t.k = "list" -> Tup([i \in 1..(IF WithinLimit(n, t.lim) THEN n ELSE t.lim.v) |-> SizedVal(t.t, n)])
      [] t.k = "cont" -> Tup([i \in 1..Len(t.fs) |-> SizedVal(t.fs[i].t, n)])

\* few different leaves, so that parts of equal type are often equal; at most n elements in every list
RECURSIVE CoinVal(_, _)
CoinVal(t, n) ==
    CASE t.k = "uint" -> LET x == Pick({0, 0, 1, 255}) IN Tup([i \in 1..t.n |-> IF x = 1 /\ i > 1 THEN 0 ELSE x])
      [] t.k = "bytes" -> LET x == Pick({0, 1, 2}) IN Tup([i \in 1..t.n |-> IF x = 2 /\ i > 1 THEN 0 ELSE x])
      [] t.k = "bool" -> Pick({0, 1})
      [] t.k = "bitvec" -> LET x == Pick({0, 1}) IN Tup([i \in 1..t.n |-> x])
      [] t.k = "bitlist" -> LET m == Pick(0..n) IN Tup([i \in 1..(IF WithinLimit(m, t.lim) THEN m ELSE t.lim.v) |-> Pick({0, 1})])
      [] t.k = "vec" -> Tup([i \in 1..t.n |-> CoinVal(t.t, n)])
      [] t.k = "list" -> LET m == Pick(0..n) IN Tup([i \in 1..(IF WithinLimit(m, t.lim) THEN m ELSE t.lim.v) |-> CoinVal(t.t, n)])
      [] t.k = "cont" -> Tup([i \in 1..Len(t.fs) |-> CoinVal(t.fs[i].t, n)])

\* everything as large as it can be, n elements in every list
RECURSIVE FullVal(_, _)
FullVal(t, n) ==
    CASE t.k \in {"uint", "bytes"} -> Tup([i \in 1..t.n |-> 255])
      [] t.k = "bool" -> 1
      [] t.k = "bitvec" -> Tup([i \in 1..t.n |-> 1])
      [] t.k = "bitlist" -> Tup([i \in 1..(IF WithinLimit(n, t.lim) THEN n ELSE t.lim.v) |-> 1])
      [] t.k = "vec" -> Tup([i \in 1..t.n |-> FullVal(t.t, n)])
      [] t.k = "list" -> Tup([i \in 1..(IF WithinLimit(n, t.lim) THEN n ELSE t.lim.v) |-> FullVal(t.t, n)])
      [] t.k = "cont" -> Tup([i \in 1..Len(t.fs) |-> FullVal(t.fs[i].t, n)])

(***************************************************************************)
(* Positions (1-based) of the bytes that steer decoding: offsets, booleans,*)
(* the last byte of bitfields. `at` is where t's encoding starts (0-based).*)
(***************************************************************************)
RECURSIVE Steering(_, _, _)
ElemLens(t, v) == Tup([i \in 1..Len(v) |-> Len(Ser(t, v[i]))])
RECURSIVE Starts(_, _, _)
Starts(lens, i, at) == IF i > Len(lens) THEN << >> ELSE <<at>> \o Starts(lens, i + 1, at + lens[i])
SteerSeq(t, v, at) ==
    IF IsFixed(t)
    THEN UNION { Steering(t, v[i], at + (i - 1) * FixedSize(t)) : i \in 1..Len(v) }
    ELSE LET st == Starts(ElemLens(t, v), 1, at + OffsetBytes * Len(v))
         IN { at + j : j \in 1..(OffsetBytes * Len(v)) }
            \cup UNION { Steering(t, v[i], st[i]) : i \in 1..Len(v) }
Steering(t, v, at) ==
    CASE t.k \in {"uint", "bytes"} -> {}
      [] t.k = "bool" -> {at + 1}
      [] t.k = "bitvec" -> {at + FixedSize(t)}
      [] t.k = "bitlist" -> {at + Len(v) \div 8 + 1}
      [] t.k \in {"vec", "list"} -> SteerSeq(t.t, v, at)
      [] t.k = "cont" ->
           LET n == Len(t.fs)
               fixedLen == Sum(Tup([i \in 1..n |-> SlotSize(t.fs[i].t)]))
               lens == Tup([i \in 1..n |-> IF IsFixed(t.fs[i].t) THEN 0 ELSE Len(Ser(t.fs[i].t, v[i]))])
               st == Starts(lens, 1, at + fixedLen)
           IN UNION { IF IsFixed(t.fs[i].t)
                      THEN Steering(t.fs[i].t, v[i], at + FieldPos(t.fs, i))
                      ELSE { at + FieldPos(t.fs, i) + j : j \in 1..OffsetBytes }
                           \cup Steering(t.fs[i].t, v[i], st[i])
                    : i \in 1..n }

=============================================================================
