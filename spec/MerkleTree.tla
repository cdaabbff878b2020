----------------------------- MODULE MerkleTree -----------------------------
(***************************************************************************)
(* Merkle trees over an abstract hash: what the roots and the cached node  *)
(* lists are. Instantiated with SHA-256 by Merkle.tla and with symbolic    *)
(* digests by MerkleMachine.tla.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, ByteSeq
CONSTANTS Hash2(_, _), ZeroHash(_)   \* ZeroHash(h): root of the all-zero tree of height h

\* the level above chs, whose subtrees have height h
LevelUp(chs, h) ==
    Tup([i \in 1..((Len(chs) + 1) \div 2) |->
        Hash2(chs[2*i - 1], IF 2*i <= Len(chs) THEN chs[2*i] ELSE ZeroHash(h))])

RECURSIVE RootFrom(_, _, _)
RootFrom(chs, h, depth) ==
    IF h = depth THEN chs[1] ELSE RootFrom(LevelUp(chs, h), h + 1, depth)
\* root of the tree of 2^depth leaves whose first Len(chs) >= 1 leaves are chs
MerkleRoot(chs, depth) == RootFrom(chs, 0, depth)

RECURSIVE NodesFrom(_, _, _)
NodesFrom(chs, h, depth) ==
    IF h = depth THEN << >>
    ELSE LET up == LevelUp(chs, h) IN up \o NodesFrom(up, h + 1, depth)
\* interior nodes covering a given chunk, level by level; a depth-0 tree is its chunk
TreeNodes(chs, depth) == IF depth = 0 THEN chs ELSE NodesFrom(chs, 0, depth)

\* the definition without shortcuts: every one of the 2^depth leaves is there
RECURSIVE FullRoot(_)
FullRoot(leaves) == IF Len(leaves) = 1 THEN leaves[1]
                    ELSE LET h == Len(leaves) \div 2
                         IN Hash2(FullRoot(SubSeq(leaves, 1, h)), FullRoot(SubSeq(leaves, h + 1, Len(leaves))))
PaddedRoot(chs, depth) == FullRoot(chs \o Tup([i \in 1..(Pow2(depth) - Len(chs)) |-> ZeroHash(0)]))
=============================================================================
