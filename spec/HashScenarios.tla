---------------------------- MODULE HashScenarios ----------------------------
(***************************************************************************)
(* Generates the batch-hash calls that are run against the real backends.  *)
(* Block i (from 0) of a call is pool[PoolIndex(call, i, Len(pool))].      *)
(***************************************************************************)
EXTENDS ByteSeq, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt
CONSTANTS Plan, PoolSize, MaxN, Big, Backends

Pick(S) == RandomElement(S)
RandBytes(n) == Tup([j \in 1..n |-> RandomElement(0..255)])
RandBlock(i) ==
    CASE i = 1 -> Zeros(64)
      [] i = 2 -> Tup([j \in 1..64 |-> 255])
      [] i = 3 -> Tup([j \in 1..64 |-> j])
      [] i = 4 -> Tup([j \in 1..64 |-> 128])
      [] i \in 5..12 -> LET p == Pick(1..64) IN Tup([j \in 1..64 |-> IF j = p THEN 2 ^ (i - 5) ELSE 0])
      [] i \in 13..16 -> LET p == Pick(1..64) IN Tup([j \in 1..64 |-> IF j = p THEN 254 ELSE 255])
      [] i \in 17..18 -> Zeros(32) \o RandBytes(32)
      [] i \in 19..20 -> RandBytes(32) \o Zeros(32)
      [] i = 21 -> LET h == RandBytes(32) IN h \o h
      [] i \in 22..25 -> LET n == Pick(1..63) IN Zeros(n) \o RandBytes(64 - n)
      [] i \in 26..29 -> LET n == Pick(1..63) IN RandBytes(n) \o Zeros(64 - n)
      [] OTHER -> RandBytes(64)
Pool(dummy) == Tup([i \in 1..PoolSize |-> RandBlock(i)])

Stride(dummy) == IF Pick(1..8) = 1 THEN 0 ELSE Pick(1..(PoolSize - 1))
\* a stretch of zero blocks: mostly none, else anywhere, at the end, or all but one
Stretch(n) == IF n < 2 THEN <<0, 0>>
              ELSE LET c == Pick(1..8) IN LET a == Pick(0..(n - 1)) IN LET b == Pick(0..(n - 1))
              IN CASE c = 1 -> <<a, b>> [] c = 2 -> <<a, n>> [] c = 3 -> <<a + 1, a>> [] OTHER -> <<0, 0>>
Call(be, n, im, io, om, oo, sp) ==
    [op |-> "call", be |-> be, n |-> n, s |-> Pick(0..(PoolSize - 1)), k |-> Stride(0), z |-> Stretch(n),
     im |-> im, io |-> io, om |-> om, oo |-> oo, sp |-> sp]
\* any placement in plain memory
Anywhere(be, n) == Call(be, n, "m", Pick(0..70), "m", Pick(0..70), Pick(0..3))
\* each buffer flush against an inaccessible page, above or below
Flush(be, n, im, om) == Call(be, n, im, 0, om, 0, Pick(0..3))
\* near such a page, not aligned to anything
Near(be, n) == Call(be, n, Pick({"e", "b"}), Pick(1..63), Pick({"e", "b"}), Pick(1..63), Pick(0..3))

\* the same with varying blocks only
Plain(c) == [c EXCEPT !.z = <<0, 0>>, !.k = Pick(1..(PoolSize - 1))]

BeSeq == SetToSeq(Backends)
Over(F(_, _), lo, hi) ==
    Join(Tup([b \in 1..Len(BeSeq) |-> Tup([n \in 1..(hi - lo + 1) |-> F(BeSeq[b], n + lo - 1)])]))
\* a call, and in the same places: with one block zero, with fewer blocks, and the first again
Alike(c) == LET p == Pick(0..(c.n - 1))
            IN << c, [c EXCEPT !.z = <<p, p + 1>>], [c EXCEPT !.n = Pick(0..c.n)], [c EXCEPT !.s = (c.s + 1) % PoolSize], c >>
AllAlike(cs) == Join(Tup([i \in 1..Len(cs) |-> Force(LAMBDA c : Alike(c), Plain(cs[i]))]))

Values(dummy) ==
    Over(LAMBDA b, n : Anywhere(b, n), 0, MaxN) \o Over(LAMBDA b, n : Anywhere(b, n), 0, MaxN)
    \o Tup([i \in 1..(Big * Len(BeSeq)) |-> Anywhere(BeSeq[(i % Len(BeSeq)) + 1], Pick(MaxN..(12 * MaxN)))])
    \o AllAlike(Tup([i \in 1..(4 * Len(BeSeq)) |-> Anywhere(BeSeq[(i % Len(BeSeq)) + 1], IF i % 3 = 0 THEN Pick(1..(12 * MaxN)) ELSE Pick(1..MaxN))]))
    \o Tup([b \in 1..Len(BeSeq) |-> Plain(Anywhere(BeSeq[b], Pick({65537, 65539, 65545, 65551, 66000})))])
    \o Tup([b \in 1..Len(BeSeq) |-> Anywhere(BeSeq[b], Pick({65535, 65536, 65540, 65555, 66001}))])
    \o Tup([b \in 1..Len(BeSeq) |-> [op |-> "huge", be |-> BeSeq[b], n |-> "4294967299"]])
    \o Tup([b \in 1..Len(BeSeq) |-> [op |-> "huge", be |-> BeSeq[b], n |-> "4294967296"]])
    \o Tup([b \in 1..Len(BeSeq) |-> [op |-> "huge", be |-> BeSeq[b], n |-> "2147483648"]])
Edges(dummy) ==
    Over(LAMBDA b, n : Flush(b, n, "e", "e"), 0, MaxN) \o Over(LAMBDA b, n : Flush(b, n, "b", "b"), 0, MaxN)
    \o Over(LAMBDA b, n : Flush(b, n, "e", "b"), 0, MaxN) \o Over(LAMBDA b, n : Flush(b, n, "b", "e"), 0, MaxN)
    \o Over(LAMBDA b, n : Near(b, n), 0, MaxN) \o Over(LAMBDA b, n : Near(b, n), 0, MaxN)
    \o Over(LAMBDA b, n : Anywhere(b, n), 0, MaxN)
    \o Tup([i \in 1..(Big * Len(BeSeq)) |->
              Flush(BeSeq[(i % Len(BeSeq)) + 1], Pick(MaxN..(12 * MaxN)), Pick({"e", "b"}), Pick({"e", "b"}))])

\* concurrent calls: some threads, each running all calls over and over
Conc(be, n) == [be |-> be, n |-> n, s |-> Pick(0..(PoolSize - 1)), k |-> Stride(0), z |-> Stretch(n)]
Threads(t, r, be) == [op |-> "threads", t |-> t, r |-> r,
                      calls |-> Tup([j \in 1..6 |-> Conc(be, Pick(1..MaxN))]) \o <<Conc(be, 0), Conc(be, 2), Conc(be, 3)>>]
Mixed(t, r) == [op |-> "threads", t |-> t, r |-> r,
                calls |-> Tup([j \in 1..12 |-> Conc(BeSeq[RandomElement(1..Len(BeSeq))], Pick(1..MaxN))])]
Nest(b1, n1, b2, n2) == [op |-> "nest", a |-> Conc(b1, n1), b |-> Conc(b2, n2)]
Concurrent(dummy) ==
    Tup([b \in 1..Len(BeSeq) |-> Threads(8, 3000, BeSeq[b])])
    \o Tup([i \in 1..Big |-> Mixed(8, 3000)])
    \o Join(Tup([b \in 1..Len(BeSeq) |-> Tup([c \in 1..Len(BeSeq) |-> Nest(BeSeq[b], Pick({9, 10, 11, 13}), BeSeq[c], Pick({2, 3, 5, 13}))])]))
    \o Tup([b \in 1..Len(BeSeq) |-> Nest(BeSeq[b], 2, BeSeq[b], 2)])

Picks(dummy) == <<[op |-> "cap"]>> \o Tup([r \in 1..17 |-> [op |-> "pick", req |-> r - 2]])

Calls(dummy) == CASE Plan = "values" -> Values(0) [] Plan = "edges" -> Edges(0)
                  [] Plan = "concurrent" -> Concurrent(0) [] Plan = "picks" -> Picks(0)
ASSUME JsonSerialize(IOEnv.OUT, [pool |-> Pool(0), ev |-> Calls(0)])
=============================================================================
