------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* SSZ merkleization of a sequence of 32-byte chunks, with real digests.   *)
(* MerkleMachine.tla models how the implementation computes it step by     *)
(* step (with symbolic hashes) and is checked against the same definition. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, ByteSeq, Sha256Fast, SequencesExt

ChunkLen == 32
ZeroChunk == Zeros(32)
Hash2(a, b) == Digest(a \o b)

MaxDepth == 64   \* the deepest tree a 64-bit limit asks for

RECURSIVE ZeroHashBuild(_)
ZeroHashBuild(n) ==
    IF n = 1 THEN <<ZeroChunk>>
    ELSE LET s == ZeroHashBuild(n - 1)
             z == s[n - 1]
         IN Append(s, Hash2(z, z))
\* ZeroHashes[h + 1] is the root of the all-zero tree of height h
ZeroHashes == ZeroHashBuild(MaxDepth + 1)
ZeroHash(h) == ZeroHashes[h + 1]

\* LevelUp, MerkleRoot, TreeNodes with these digests
INSTANCE MerkleTree

\* a byte string packed into chunks; the empty one is a single zero chunk
Pack(b) ==
    IF Len(b) = 0 THEN <<ZeroChunk>>
    ELSE IF Len(b) = 32 THEN <<b>>
    ELSE Tup([i \in 1..((Len(b) + 31) \div 32) |->
             IF 32 * i <= Len(b) THEN SubSeq(b, 32 * i - 31, 32 * i) ELSE PadTo(SubSeq(b, 32 * i - 31, Len(b)), 32)])

MixInLE(root, lengthBytes) == Hash2(root, PadTo(lengthBytes, 32))
MixIn(root, n) == MixInLE(root, NatLE(n, 4))
=============================================================================
