---------------------------- MODULE MerkleMachine ----------------------------
(***************************************************************************)
(* The computation of a hash tree as the implementation performs it: one   *)
(* flat store sized up front, a batch call per level, a zero subtree where *)
(* a level is odd, a chain of zero subtrees up to the limit's depth, a     *)
(* final trim, then lengths mixed in at the end. Hashes are symbolic       *)
(* (a pair is its own digest), so equal nodes mean equal trees.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, ByteSeq
CONSTANTS MaxChunks, MaxLimit, Capacity(_, _, _)   \* Capacity(n, effective depth, depth)

Hash2(a, b) == <<a, b>>
RECURSIVE ZeroHash(_)
ZeroHash(h) == IF h = 0 THEN <<0>> ELSE Hash2(ZeroHash(h - 1), ZeroHash(h - 1))
INSTANCE MerkleTree

BitCeil(n) == Pow2(Log2CeilNat(n))
\* room for the full tree over the chunks, the chain above it and one mixed-in length
RealCapacity(n, eff, depth) ==
    LET c == (depth - eff) + BitCeil(n) - 1 + (IF depth > eff THEN 1 ELSE 0) IN IF c < 1 THEN 1 ELSE c
\* enough for perfect trees only
TightCapacity(n, eff, depth) == LET c == (depth - eff) + n - 1 IN IF c < 1 THEN 1 ELSE c

VARIABLES n, limit, pc, store, first, last, height, mixed
vars == <<n, limit, pc, store, first, last, height, mixed>>

Leaves == Tup([i \in 1..n |-> <<i>>])
Depth == Log2CeilNat(IF limit = 0 THEN n ELSE limit)
Junk == <<>>
InStore(i) == i \in 1..Len(store)
Dist == last - first

Init == /\ n \in 1..MaxChunks /\ limit \in 0..MaxLimit
        /\ (limit = 0 \/ limit >= n)
        /\ pc = "alloc" /\ store = << >> /\ first = 0 /\ last = 0 /\ height = 1 /\ mixed = 0

Alloc == /\ pc = "alloc"
         /\ IF n = 1 /\ limit <= 1
            THEN store' = Leaves /\ pc' = "done"
            ELSE store' = Tup([i \in 1..Capacity(n, Log2CeilNat(n), Depth) |-> Junk]) /\ pc' = "leaves"
         /\ UNCHANGED <<n, limit, first, last, height, mixed>>

\* a batch hash of the pairs of src from..., written behind `at`; refuses to leave the store
Put(s, i, x) == [s EXCEPT ![i] = x]
Fits(hi) == hi <= Len(store)
BottomLevel ==
    /\ pc = "leaves"
    /\ LET k == (n + 1) \div 2 IN
       IF ~Fits(k) THEN pc' = "overrun" /\ UNCHANGED <<store, first, last, height>>
       ELSE /\ store' = Tup([i \in 1..Len(store) |->
                             IF i <= n \div 2 THEN Hash2(Leaves[2*i - 1], Leaves[2*i])
                             ELSE IF i = k THEN Hash2(Leaves[n], ZeroHash(0)) ELSE store[i]])
            /\ first' = 0 /\ last' = k /\ pc' = "levels" /\ UNCHANGED height
    /\ UNCHANGED <<n, limit, mixed>>
Level ==
    /\ pc = "levels" /\ Dist > 1
    /\ LET k == (Dist + 1) \div 2 IN
       IF ~Fits(last + k) THEN pc' = "overrun" /\ UNCHANGED <<store, first, last, height>>
       ELSE /\ store' = Tup([i \in 1..Len(store) |->
                             LET j == i - last IN
                             IF j \in 1..(Dist \div 2) THEN Hash2(store[first + 2*j - 1], store[first + 2*j])
                             ELSE IF j = k THEN Hash2(store[last], ZeroHash(height)) ELSE store[i]])
            /\ first' = last /\ last' = last + k /\ height' = height + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<n, limit, mixed>>
Chain ==
    /\ pc = "levels" /\ Dist <= 1 /\ height < Depth
    /\ IF ~Fits(last + 1) THEN pc' = "overrun" /\ UNCHANGED <<store, first, last, height>>
       ELSE /\ store' = Put(store, last + 1, Hash2(store[last], ZeroHash(height)))
            /\ last' = last + 1 /\ first' = last /\ height' = height + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<n, limit, mixed>>
Trim == /\ pc = "levels" /\ Dist <= 1 /\ height >= Depth
        /\ store' = SubSeq(store, 1, last) /\ pc' = "done"
        /\ UNCHANGED <<n, limit, first, last, height, mixed>>
LenNode(k) == <<k, k, k>>
MixIn == /\ pc = "done" /\ mixed < 2
         /\ store' = Append(store, Hash2(store[Len(store)], LenNode(mixed + 1)))
         /\ mixed' = mixed + 1
         /\ UNCHANGED <<n, limit, pc, first, last, height>>
Next == Alloc \/ BottomLevel \/ Level \/ Chain \/ Trim \/ MixIn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoOverrun == pc # "overrun"
RECURSIVE WithMixed(_, _)
WithMixed(nodes, k) == IF k = 0 THEN nodes
                       ELSE LET s == WithMixed(nodes, k - 1) IN Append(s, Hash2(s[Len(s)], LenNode(k)))
NodesRight == pc = "done" => store = WithMixed(TreeNodes(Leaves, Depth), mixed)
RootRight == pc = "done" /\ mixed = 0 => store[Len(store)] = PaddedRoot(Leaves, Depth)
DefinitionsAgree == MerkleRoot(Leaves, Depth) = PaddedRoot(Leaves, Depth)
NoJunkLeft == pc = "done" => \A i \in 1..Len(store) : store[i] # Junk
Finishes == <>(pc \in {"done", "overrun"})
=============================================================================
