---------------------------- MODULE TreeScenarios ----------------------------
(***************************************************************************)
(* Generates hash trees to build: chunk counts, limits and mixed-in        *)
(* lengths. Chunk i (from 0) is pool[PoolIndex(tree, i, Len(pool))].       *)
(***************************************************************************)
EXTENDS ByteSeq, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt
CONSTANTS MaxN, Big, BigN

Pick(S) == RandomElement(S)
RandBytes(n) == Tup([i \in 1..n |-> RandomElement(Byte)])
PoolSize == 61
Pool(dummy) == Tup([i \in 1..PoolSize |-> IF i <= 2 THEN Zeros(32) ELSE IF i = 3 THEN Tup([j \in 1..32 |-> 255])
                     ELSE IF i <= 8 THEN LET p == Pick(1..32) IN Tup([j \in 1..32 |-> IF j = p THEN Pow2(i - 1) ELSE 0])
                     ELSE IF i <= 12 THEN LET p == Pick(1..31) IN IF i % 2 = 0 THEN Zeros(p) \o RandBytes(32 - p) ELSE RandBytes(p) \o Zeros(32 - p)
                     ELSE RandBytes(32)])

N8(n) == NatLE(n, 4) \o <<0, 0, 0, 0>>
P8(e) == Tup([i \in 1..8 |-> IF i = e \div 8 + 1 THEN Pow2(e % 8) ELSE 0])   \* 2^e
Plus1(b) == SubSeq(AddLE(b, N8(1)), 1, 8)
Minus1(b) == SubSeq(AddLE(b, Tup([i \in 1..8 |-> 255])), 1, 8)
Mix(dummy) == Tup([i \in 1..Pick(0..2) |->
             LET c == Pick(1..4) IN CASE c = 1 -> N8(Pick(0..300)) [] c = 2 -> RandBytes(8) [] c = 3 -> Zeros(8)
                                     [] OTHER -> Tup([j \in 1..8 |-> 255])])
\* a stretch of zero chunks: mostly none, else anywhere, at the end, all, or all but one
Stretch(n) == IF n < 2 THEN <<0, 0>>
              ELSE LET c == Pick(1..10) IN LET a == Pick(0..(n - 1)) IN LET b == Pick(0..(n - 1))
              IN CASE c = 1 -> <<a, b>> [] c = 2 -> <<a, n>> [] c = 3 -> <<a + 1, a>> [] c = 4 -> <<0, n>> [] OTHER -> <<0, 0>>
Tree(n, lim) == [op |-> "tree", n |-> n, s |-> Pick(0..(PoolSize - 1)), k |-> Pick(0..(PoolSize - 1)), z |-> Stretch(n), side |-> Pick({"e", "e", "b"}),
                 lim |-> lim, mix |-> Mix(0)]
Bytes(len, lim) == [op |-> "bytes", b |-> RandBytes(len), side |-> Pick({"e", "b"}), lim |-> lim, mix |-> Mix(0)]

LimitsFor(n) ==   \* around the count and around powers of two, up to 2^64 - 1
    << N8(0), N8(n), N8(n + 1), N8(2 * n), N8(Pow2(Log2CeilNat(n))), N8(Pow2(Log2CeilNat(n)) + 1), N8(IF n = 0 THEN 0 ELSE n - 1),
       N8((n + 1) \div 2), P8(Pick(11..63)), Plus1(P8(Pick(11..63))), Minus1(P8(Pick(11..63))), P8(Pick({31, 32, 33, 38, 40, 42, 63})),
       SubSeq(RandBytes(5), 1, 5) \o <<0, 0, 0>>, IF n % 4 = 0 THEN Tup([j \in 1..8 |-> 255]) ELSE RandBytes(8) >>
ChunkTrees(dummy) ==
    Join(Tup([i \in 1..(MaxN + 1) |-> LET ls == LimitsFor(i - 1) IN Tup([j \in 1..Len(ls) |-> Tree(i - 1, ls[j])])]))
\* every exponent of two as the limit, for a few counts
Deep(dummy) == Join(Tup([e \in 1..64 |-> << Tree(1, P8(e - 1)), Tree(2, P8(e - 1)), Tree(Pick(3..9), P8(e - 1)) >>]))
\* a tree, and after it: with one chunk zero, with another limit, without its last chunk, with other lengths, and the first again
Alike(t) == LET p == Pick(0..(t.n - 1)) IN LET q == Pick(0..(t.n - 1))
            IN << t, [t EXCEPT !.z = <<p, p + 1>>], [t EXCEPT !.lim = P8(Pick(11..63))], [t EXCEPT !.z = <<q, q + 1>>],
                  [t EXCEPT !.n = @ - 1], [t EXCEPT !.mix = Mix(0)], [t EXCEPT !.lim = N8(0)], t >>
AllAlike(dummy) ==
    Join(Tup([i \in 1..24 |-> Force(LAMBDA n : Force(LAMBDA t : Alike([t EXCEPT !.z = <<0, 0>>, !.k = Pick(1..(PoolSize - 1))]),
                                                         Tree(n, LimitsFor(n)[Pick({1, 2, 3, 5, 9, 12})])),
                                       IF i % 6 = 0 THEN Pick(MaxN..BigN) ELSE Pick(2..MaxN))]))
\* more than 2^16 pairs, with varying chunks, and the sizes between
Plain(t) == [t EXCEPT !.z = <<0, 0>>, !.k = Pick(1..(PoolSize - 1))]
BigTrees(dummy) ==
    << Plain(Tree(131072 + Pick(2..9), N8(0))), Plain(Tree(131072 + 2 * Pick(5..30) + 1, P8(Pick(18..63)))) >>
    \o Tup([i \in 1..Big |-> LET n == Pick(MaxN..BigN) ls == LimitsFor(n) IN Tree(n, ls[Pick(1..Len(ls))])])
ByteTrees(dummy) ==
    Tup([i \in 1..131 |-> Bytes(i - 1, N8(0))])
    \o Tup([i \in 1..131 |-> Bytes(i - 1, N8(Pick(0..6)))])
    \o Tup([i \in 1..40 |-> Bytes(Pick(0..600), P8(Pick(5..63)))])
ASSUME JsonSerialize(IOEnv.OUT, [pool |-> Pool(0), ev |-> ChunkTrees(0) \o Deep(0) \o AllAlike(0) \o BigTrees(0) \o ByteTrees(0)])
=============================================================================
