----------------------------- MODULE LimitWords -----------------------------
(***************************************************************************)
(* Limits in machine words: how the library decides whether a list of      *)
(* n elements of `size` bytes is within its limit, and how many levels the *)
(* tree of its chunks has, when everything is computed in words of W bits. *)
(* A limit of 0 is none. How names the way:                                *)
(*   quotient  bytes / size > limit; chunks limit / per + (rest # 0)       *)
(*   product   bytes > limit * size                                        *)
(*   narrow    the limit cut to half a word                                *)
(*   signed    compared as signed words                                    *)
(*   rounded   chunks (limit + per - 1) / per                              *)
(*   scaled    chunks (limit * size + Chunk - 1) / Chunk                   *)
(*   floor     chunks limit / per                                          *)
(*   few       limits below one chunk taken as none                        *)
(* One object: its limit is set, sequences of any length are offered to    *)
(* it, its root is asked for.                                              *)
(***************************************************************************)
EXTENDS Naturals, ByteSeq, TLC
CONSTANTS W, Chunk, Sizes, MaxCount, How

VARIABLES size, limit, held, root
vars == <<size, limit, held, root>>

Word == Pow2(W)
Cut(n) == n % Word
Over(n) == IF limit = 0 THEN FALSE
           ELSE CASE How = "product" -> n * size > Cut(limit * size)
                  [] How = "narrow" -> n > limit % Pow2(W \div 2)
                  [] How = "signed" -> limit >= Word \div 2 \/ n > limit
                  [] OTHER -> (n * size) \div size > limit
Per == Chunk \div size
ChunkLimit == CASE How = "rounded" -> Cut(limit + Per - 1) \div Per
                [] How = "scaled" -> Cut(Cut(limit * size) + Chunk - 1) \div Chunk
                [] How = "floor" -> limit \div Per
                [] How = "few" -> IF limit < Per THEN 0 ELSE limit \div Per + (IF limit % Per # 0 THEN 1 ELSE 0)
                [] OTHER -> limit \div Per + (IF limit % Per # 0 THEN 1 ELSE 0)
Ceil(a, b) == (a + b - 1) \div b
Larger(a, b) == IF a > b THEN a ELSE b
ChunksOf(n) == Larger(1, Ceil(n * size, Chunk))
\* the tree over them: its depth, or that it is refused
None == [k |-> "none", d |-> 0]
TreeOf(n) == IF ChunkLimit # 0 /\ ChunksOf(n) > ChunkLimit THEN [k |-> "thrown", d |-> 0]
             ELSE [k |-> "depth", d |-> Log2CeilNat(IF ChunkLimit = 0 THEN ChunksOf(n) ELSE ChunkLimit)]

Init == size \in Sizes /\ limit = 0 /\ held = 0 /\ root = None
SetLimit == limit' \in 0..(Word - 1) /\ root' = None /\ UNCHANGED <<size, held>>
\* a refused sequence is not kept; what was held may be lost, but no more than that is held
Offer(n) == /\ root' = None /\ UNCHANGED <<size, limit>>
            /\ held' = IF Over(n) THEN 0 ELSE n
AskRoot == root' = TreeOf(held) /\ UNCHANGED <<size, limit, held>>
Next == SetLimit \/ (\E n \in 0..MaxCount : Offer(n)) \/ AskRoot
Spec == Init /\ [][Next]_vars

Allowed(n) == limit = 0 \/ n <= limit
Exactly == \A n \in 0..MaxCount : Over(n) = ~Allowed(n)
\* the chunks a list may have, without words
TrueChunks == Ceil(limit * size, Chunk)
RootRight == CASE root.k = "none" -> TRUE
               [] root.k = "thrown" -> limit # 0 /\ ChunksOf(held) > TrueChunks
               [] root.k = "depth" -> /\ limit = 0 \/ ChunksOf(held) <= TrueChunks
                                      /\ root.d = Log2CeilNat(IF limit = 0 THEN ChunksOf(held) ELSE TrueChunks)
=============================================================================
