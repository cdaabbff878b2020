---------------------------- MODULE TreeBackends ----------------------------
(***************************************************************************)
(* A tree built level by level through a batch backend: the pairs of a     *)
(* level are hashed in rounds of the backend's widths (BatchHash), each    *)
(* round reading all its pairs before it writes its digests. The digests   *)
(* of a level go behind it (Place "behind", as the library does) or over   *)
(* it (Place "over", front to back). Whatever the backend, the root is the *)
(* one of the padded tree. Fault names a way to lose that:                 *)
(*   backward  the rounds of a level are taken from its end, over it       *)
(*   rounded   an odd level hashes one pair more than it has               *)
(*   skipped   pairs left below the last width are not hashed              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, ByteSeq
CONSTANTS MaxChunks, MaxLimit, Place, Fault

Hash2(a, b) == <<a, b>>
RECURSIVE ZeroHash(_)
ZeroHash(h) == IF h = 0 THEN <<0>> ELSE Hash2(ZeroHash(h - 1), ZeroHash(h - 1))
INSTANCE MerkleTree

Pipelines == [ SHA |-> <<2, 1>>, AVX2 |-> <<8, 4, 1>>, AVX |-> <<4, 1>>, SSE |-> <<1>> ]

VARIABLES backend, n, limit, mem, src, len, at, stage, height, root
vars == <<backend, n, limit, mem, src, len, at, stage, height, root>>
\* the level is mem[src+1..src+len]; `at` of its pairs are hashed

Leaves == Tup([i \in 1..n |-> <<i>>])
Depth == Log2CeilNat(IF limit = 0 THEN n ELSE limit)
Junk == << >>
Dst == IF Place = "over" THEN src ELSE src + len
Widths == Pipelines[backend]
W == Widths[stage]
Pairs == IF Fault = "rounded" THEN (len + 1) \div 2 ELSE len \div 2
Left == Pairs - at

Init == /\ backend \in DOMAIN Pipelines /\ n \in 1..MaxChunks /\ limit \in 0..MaxLimit /\ (limit = 0 \/ limit >= n)
        /\ mem = Leaves \o Tup([i \in 1..(2 * n + 8) |-> Junk])
        /\ src = 0 /\ len = n /\ at = 0 /\ stage = 1 /\ height = 0 /\ root = << >>

Building == root = << >> /\ height < Depth
\* the pairs of this round, as positions in the level
First == IF Fault = "backward" THEN Pairs - at - W ELSE at
Round == /\ Building /\ Left >= W
         /\ LET read == Tup([k \in 1..W |-> Hash2(mem[src + 2 * (First + k) - 1], mem[src + 2 * (First + k)])])
            IN mem' = Tup([i \in 1..Len(mem) |-> LET k == i - Dst - First IN IF k \in 1..W THEN read[k] ELSE mem[i]])
         /\ at' = at + W
         /\ UNCHANGED <<backend, n, limit, src, len, stage, height, root>>
Narrow == /\ Building /\ Left < W /\ Left > 0 /\ stage < Len(Widths)
          /\ stage' = stage + 1
          /\ UNCHANGED <<backend, n, limit, mem, src, len, at, height, root>>
Ended == Left = 0 \/ (Fault = "skipped" /\ stage = 1 /\ Left < W)
\* the odd node is paired with a zero subtree
Up == /\ Building /\ Ended
      /\ mem' = IF len % 2 = 1 /\ Fault # "rounded" THEN [mem EXCEPT ![Dst + (len + 1) \div 2] = Hash2(mem[src + len], ZeroHash(height))] ELSE mem
      /\ src' = Dst /\ len' = (len + 1) \div 2 /\ at' = 0 /\ stage' = 1 /\ height' = height + 1
      /\ UNCHANGED <<backend, n, limit, root>>
Finish == /\ root = << >> /\ height = Depth
          /\ root' = mem[src + 1]
          /\ UNCHANGED <<backend, n, limit, mem, src, len, at, stage, height>>
Next == Round \/ Narrow \/ Up \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SameRoot == root # << >> => root = PaddedRoot(Leaves, Depth)
\* what a level has hashed so far is right, too
LevelRight == len = 1 /\ height > 0 /\ root = << >> => mem[src + 1] = MerkleRoot(Leaves, height)
Finishes == <>(root # << >>)
=============================================================================
