---------------------------- MODULE PrimScenarios ----------------------------
(***************************************************************************)
(* Generates operations on byte strings, slots, booleans, hex helpers and  *)
(* integer functions. Plans: bytes, texts, math, presets.                  *)
(***************************************************************************)
EXTENDS ByteAlgebra, Presets, TLC, Json, IOUtils
CONSTANTS Plan, Scale

Sizes == <<1, 2, 3, 4, 5, 8, 16, 20, 31, 32, 33, 48, 64, 96>>
Others == <<1, 4, 8, 20, 32, 48, 96>>
Pick(S) == RandomElement(S)
AnyOf(n) == Tup([i \in 1..n |-> RandomElement(0..255)])
\* contents that tell positions and carries apart
Some(n, k) == CASE k % 6 = 0 -> Zeros(n)
                [] k % 6 = 1 -> Tup([i \in 1..n |-> 255])
                [] k % 6 = 2 -> Tup([i \in 1..n |-> i % 256])
                [] k % 6 = 3 -> LET p == Pick(1..n) IN LET v == Pick({1, 15, 16, 128, 240, 255}) IN Tup([i \in 1..n |-> IF i = p THEN v ELSE 0])
                [] OTHER -> AnyOf(n)
Change(b) == LET p == Pick(1..Len(b)) IN LET v == (b[p] + Pick({1, 16, 128, 255})) % 256
             IN Tup([i \in 1..Len(b) |-> IF i = p THEN v ELSE b[i]])
\* for each element of the sequence s, F(x, k) for k in 1..m
Each(s, m, F(_, _)) == Join(Tup([j \in 1..Len(s) |-> Tup([k \in 1..m |-> F(s[j], k)])]))
Pairs(F(_, _, _), m) == Join(Tup([j \in 1..Len(Sizes) |-> Each(Others, m, LAMBDA o, k : F(Sizes[j], o, k))]))
Below(n) == SelectSeq(<<1, 2, 4, 8>>, LAMBDA w : w <= n)

EqPair(n, m, k) ==
    LET a == Some(n, k)
    IN IF n # m THEN [op |-> "eq", n |-> n, m |-> m, a |-> a, b |-> PadTo(a, m)]
       ELSE IF k % 2 = 0 THEN [op |-> "eq", n |-> n, m |-> m, a |-> a, b |-> a]
       ELSE [op |-> "eq", n |-> n, m |-> m, a |-> a, b |-> Change(a)]
VecPair(n, k) ==
    LET a == Some(n, k)
    IN [op |-> "ev", n |-> n, a |-> a,
        b |-> CASE k % 5 = 0 -> a [] k % 5 = 1 -> Change(a) [] k % 5 = 2 -> a \o <<Pick(0..255)>>
                [] k % 5 = 3 -> SubSeq(a, 1, n - 1) [] OTHER -> IF k % 2 = 0 THEN << >> ELSE a \o a]
\* in each position a byte that differs there alone
EqAt(n) == Tup([p \in 1..n |-> [op |-> "ev", n |-> n, a |-> Zeros(n), b |-> Tup([i \in 1..n |-> IF i = p THEN 1 ELSE 0])]])
EqAt2(n) == Tup([p \in 1..n |-> [op |-> "eq", n |-> n, m |-> n, a |-> Zeros(n), b |-> Tup([i \in 1..n |-> IF i = p THEN 128 ELSE 0])]])

Upper(s) == Tup([i \in 1..Len(s) |-> IF s[i] \in 97..102 /\ RandomElement({0, 1}) = 1 THEN s[i] - 32 ELSE s[i]])
Bytes(dummy) ==
    Each(Sizes, 4 * Scale, LAMBDA n, k : LET w == Below(n)[1 + (k % Len(Below(n)))] IN [op |-> "fi", n |-> n, w |-> w, v |-> Some(w, k)])
    \o Each(<<1, 2, 4, 8>>, 12 * Scale, LAMBDA n, k : [op |-> "ti", n |-> n, b |-> Some(n, k)])
    \o Each(Sizes, 6 * Scale, LAMBDA n, k : [op |-> "tx", n |-> n, b |-> Some(n, k)])
    \o Tup([v \in 1..256 |-> [op |-> "tx", n |-> 1, b |-> <<v - 1>>]])
    \o Each(Sizes, 6 * Scale, LAMBDA n, k : [op |-> "ps", n |-> n, how |-> k % 3, s |-> Upper(HexText(Some(n, k)))])
    \o Pairs(LAMBDA n, m, k : [op |-> "cat", n |-> n, m |-> m, a |-> Some(n, k + 1), b |-> Some(m, k + 3)], 1 + Scale)
    \o Each(Sizes, 8 * Scale, LAMBDA n, k : [op |-> "xor", n |-> n, a |-> Some(n, k + 3), b |-> Some(n, k)])
    \o Each(Sizes, 6 * Scale, LAMBDA n, k : [op |-> "ix", n |-> n, b |-> Some(n, k + 1)])
    \o Each(Sizes, 6 * Scale, LAMBDA n, k : [op |-> "wr", n |-> n, how |-> k % 3, b |-> Some(n, k), i |-> Pick({0, n - 1, Pick(1..n) - 1}), v |-> Pick(0..255)])
    \o Pairs(EqPair, 2 * Scale)
    \o Each(Sizes, 10 * Scale, VecPair)
    \o EqAt(32) \o EqAt(48) \o EqAt2(96) \o EqAt2(20)
    \o Tup([k \in 1..(30 * Scale) |-> [op |-> "slot", v |-> Some(8, k)]])
    \o <<[op |-> "bool", v |-> 0], [op |-> "bool", v |-> 1]>>
    \o Tup([c \in 1..22 |-> [op |-> "hx", v |-> (<<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102, 65, 66, 67, 68, 69, 70>>)[c]]])
    \o Tup([k \in 1..(40 * Scale) |-> [op |-> "hs", s |-> Upper(SubSeq(HexText(AnyOf(4)), 3, 2 + Pick(1..7)))]])

\* one character, in each position, of text that is otherwise right
Spoilt(n, p, c) == LET t == Upper(HexText(AnyOf(n))) IN Tup([i \in 1..Len(t) |-> IF i = p THEN c ELSE t[i]])
NotDigit == (0..127) \ ((48..57) \cup (97..102) \cup (65..70))
Texts(dummy) ==
    Tup([c \in 1..256 |-> [op |-> "hx", v |-> c - 1]])
    \o Each(Sizes, 2 * Scale, LAMBDA n, k : [op |-> "ps", n |-> n, how |-> k % 3, s |-> Spoilt(n, Pick(1..(2 * n + 2)), Pick(0..255))])
    \o Tup([c \in 1..256 |-> [op |-> "ps", n |-> 4, how |-> c % 3, s |-> Spoilt(4, 3 + (c % 8), c - 1)]])
    \o Each(Sizes, 3 * Scale, LAMBDA n, k : [op |-> "ps", n |-> n, how |-> k % 3, s |-> HexText(AnyOf(n + Pick(1..3)))])
    \o Each(Sizes, 2 * Scale, LAMBDA n, k : [op |-> "ps", n |-> n, how |-> k % 3, s |-> HexText(AnyOf(n)) \o <<Pick(48..57)>>])
    \o Each(Sizes, 2 * Scale, LAMBDA n, k : [op |-> "ps", n |-> n, how |-> k % 3, s |-> SubSeq(HexText(AnyOf(n)), 3, 2 * n + 2)])
    \o Each(Sizes, 2 * Scale, LAMBDA n, k : [op |-> "ps", n |-> n, how |-> k % 3, s |-> HexText(AnyOf(Pick(0..(n - 1))))])
    \o Tup([k \in 1..9 |-> [op |-> "ps", n |-> 4, how |-> k % 3,
                             s |-> (<<<<>>, <<48>>, <<120>>, <<48, 88, 48, 48>>, <<48, 120>>, <<120, 48, 48, 48>>, <<32, 48, 120, 49, 49>>, <<48, 120, 45, 49>>, <<48, 120, 43, 49>> >>)[k]]])
    \o Tup([k \in 1..(20 * Scale) |-> [op |-> "hs", s |-> LET t == SubSeq(HexText(AnyOf(3)), 3, 8) IN LET p == Pick(1..6) IN LET c == Pick(NotDigit)
                                       IN Tup([i \in 1..6 |-> IF i = p THEN c ELSE t[i]])]])

\* numbers of w bytes
Pow(j, w) == Tup([i \in 1..w |-> IF (j \div 8) + 1 = i THEN 2 ^ (j % 8) ELSE 0])
MaxLE(w) == Tup([i \in 1..w |-> 255])
Cut(b, w) == SubSeq(b, 1, w)
Plus(b, w) == Cut(AddLE(b, <<1>> \o Zeros(w - 1)), w)
Minus(b, w) == Cut(AddLE(b, MaxLE(w)), w)
RandBits(j, w) ==   \* a random number of exactly j + 1 bits
    Tup([i \in 1..w |-> IF i < (j \div 8) + 1 THEN RandomElement(0..255)
                        ELSE IF i = (j \div 8) + 1 THEN 2 ^ (j % 8) + RandomElement(0..(2 ^ (j % 8) - 1)) ELSE 0])
M(f, w, x) == [op |-> "math", f |-> f, w |-> w, x |-> x]
Around(f, w, x) == <<M(f, w, Minus(x, w)), M(f, w, x), M(f, w, Plus(x, w))>>
Square(r, w) == Cut(MulLE(r, r), w)
Funcs == <<"s", "c", "l">>
Boundaries(w) == Join(Tup([k \in 1..3 |-> Join(Tup([j \in 1..(8 * w) |-> Around(Funcs[k], w, Pow(j - 1, w))]))]))
Randoms(w) == Join(Tup([k \in 1..3 |-> Join(Tup([j \in 1..(8 * w) |-> Tup([i \in 1..Scale |-> M(Funcs[k], w, RandBits(j - 1, w))])]))]))
Squares(w) == Join(Tup([k \in 1..2 |-> Join(Tup([j \in 1..(4 * w) |->
                Join(Tup([i \in 1..(6 * Scale) |-> Around(Funcs[k], w, Square(RandBits(j - 1, w \div 2), w))]))]))]))
\* r * (r + 1): where rounding to nearest would go up
Middles(w) == Join(Tup([k \in 1..2 |-> Join(Tup([j \in 1..(4 * w) |->
                Join(Tup([i \in 1..(2 * Scale) |-> LET r == RandBits(j - 1, w) IN Around(Funcs[k], w, Cut(MulLE(r, Plus(r, w)), w))]))]))]))
TopSquares(w) == Join(Tup([k \in 1..2 |-> Join(Tup([d \in 1..(20 * Scale) |->
                LET r == Tup([i \in 1..(w \div 2) |-> IF i = 1 THEN 256 - ((d % 200) + 1) ELSE 255]) IN Around(Funcs[k], w, Square(r, w))]))]))
Sweep(f, w, lo, hi) == [op |-> "sweep", f |-> f, w |-> w, lo |-> lo, hi |-> hi, cap |-> 70000]
Near(f, w) == LET r == RandBits(Pick(10..(4 * w - 2)), w \div 2)
                  x == Square(r, w)
                  away == PadTo(NatLE(Pick(300..900), 2), w)
                  neg == Plus(Tup([i \in 1..w |-> 255 - away[i]]), w)
              IN Sweep(f, w, Cut(AddLE(x, neg), w), Cut(AddLE(x, away), w))
\* every 32-bit argument
All32(f) == Tup([t \in 1..32 |-> Sweep(f, 4, <<0, 0, 0, 8 * (t - 1)>>, <<255, 255, 255, 8 * t - 1>>)])
Math(dummy) ==
    Boundaries(4) \o Boundaries(8) \o Randoms(4) \o Randoms(8) \o Squares(4) \o Squares(8) \o Middles(4) \o Middles(8)
    \o TopSquares(4) \o TopSquares(8)
    \o Tup([i \in 1..(10 * Scale) |-> Near("s", 8)]) \o Tup([i \in 1..(4 * Scale) |-> Near("c", 8)])
    \o <<Sweep("s", 8, Cut(AddLE(MaxLE(8), <<1, 240>> \o Tup([i \in 1..6 |-> 255])), 8), MaxLE(8)),
         Sweep("c", 8, Cut(AddLE(MaxLE(8), <<1, 240>> \o Tup([i \in 1..6 |-> 255])), 8), MaxLE(8)),
         Sweep("s", 8, Zeros(8), NatLE(70000, 8)), Sweep("c", 8, Zeros(8), NatLE(70000, 8)), Sweep("l", 8, Zeros(8), NatLE(140000, 8))>>
    \o All32("s") \o All32("l")
    \o (IF Scale > 3 THEN All32("c") ELSE <<Sweep("c", 4, Zeros(4), <<255, 255, 15, 0>>), Sweep("c", 4, <<0, 0, 248, 255>>, MaxLE(4))>>)

NameSeq(preset) == SetToSeq(Names(preset))
Consts(preset) == Tup([k \in 1..Len(NameSeq(preset)) |-> [op |-> "const", preset |-> preset, name |-> NameSeq(preset)[k]]])

Events(dummy) == CASE Plan = "bytes" -> Bytes(0) [] Plan = "texts" -> Texts(0) [] Plan = "math" -> Math(0)
                   [] Plan = "presets" -> Consts("minimal") \o Consts("mainnet")
ASSUME JsonSerialize(IOEnv.OUT, [ev |-> Events(0)])
=============================================================================
