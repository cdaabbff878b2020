------------------------------ MODULE TreeTrace ------------------------------
(***************************************************************************)
(* Judges recorded hash trees. Line 1: the chunks (pool) and the distinct  *)
(* node values seen (digs); each other line: one tree, with its node lists *)
(* (outs) and roots (out) after construction and after each mixed-in       *)
(* length, as indices into digs. kept: copies of the tree made before each *)
(* length, and the tree built before this one, still have the nodes and    *)
(* root they had. TreeNodes and MerkleRoot are the          *)
(* definitions MerkleMachine.tla is checked against.                       *)
(***************************************************************************)
EXTENDS Merkle, Json, IOUtils, TLC
CONSTANT Focus

Lines == ndJsonDeserialize(IOEnv.TRACE)
Pool == Lines[1].pool
Digs == Lines[1].digs

VARIABLES l, bad
vars == <<l, bad>>

ChunksOf(e) == IF e.op = "bytes" THEN Pack(e.b)
               ELSE Tup([i \in 1..e.n |-> Pool[PoolIndex(e, i - 1, Len(Pool))]])
Count(e) == IF e.op = "bytes" THEN Len(Pack(e.b)) ELSE e.n
DepthOf(e) == IF IsZero(e.lim) THEN Log2CeilNat(Count(e)) ELSE Log2CeilLE(e.lim)
Defined(e) == Count(e) > 0 /\ (IsZero(e.lim) \/ LeLE(NatLE(Count(e), 4) \o Zeros(4), e.lim))

Seen(ix) == Tup([i \in 1..Len(ix) |-> Digs[ix[i]]])
RECURSIVE Mixed(_, _, _)   \* the roots after each length
Mixed(root, mix, j) == IF j > Len(mix) THEN << >>
                       ELSE LET r == MixInLE(root, mix[j]) IN <<r>> \o Mixed(r, mix, j + 1)

Check(e, nodes, ms) ==
    LET roots == <<nodes[Len(nodes)]>> \o ms
    IN (IF Len(e.out) # Len(roots) \/ Seen(e.out) # roots THEN {"root"} ELSE {})
       \cup (IF \E j \in 1..Len(e.outs) : Seen(e.outs[j]) # nodes \o SubSeq(ms, 1, j - 1) THEN {"nodes"} ELSE {})
CheckWith(e, nodes) == Check(e, nodes, Mixed(nodes[Len(nodes)], e.mix, 1))
Judge(e) ==   \* the classes of disagreement
    IF "crash" \in DOMAIN e THEN {"crash"}
    ELSE IF ~Defined(e) THEN (IF e.exc = "std" THEN {} ELSE {"refuse"})
    ELSE IF e.exc # "" THEN {"root", "nodes"}
    ELSE (IF e.kept THEN {} ELSE {"nodes"}) \cup CheckWith(e, TreeNodes(ChunksOf(e), DepthOf(e)))

Init == l \in 2..Len(Lines) /\ bad = "?"
Next == /\ bad = "?" /\ UNCHANGED l
        /\ LET cs == Judge(Lines[l])
           IN /\ bad' = IF cs = {} THEN "" ELSE IF cs \cap Focus = {} THEN "left" ELSE CHOOSE c \in cs \cap Focus : TRUE
              /\ cs # {} /\ cs \cap Focus = {} => PrintT(<<"CUT", l, cs>>)
Spec == Init /\ [][Next]_vars
Conforms == bad \notin Focus
=============================================================================
