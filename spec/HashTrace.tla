------------------------------ MODULE HashTrace ------------------------------
(***************************************************************************)
(* Judges recorded batch-hash calls: line 1 of the trace holds the blocks  *)
(* they were fed (pool) and the distinct 32-byte results they produced     *)
(* (digs); every other line is one call. Results are indices into digs.    *)
(* The contract is BatchResult of BatchHash.tla with real SHA-256, the     *)
(* footprint InBounds, the choice of backend Dispatch.tla, and the outcome *)
(* of overlapping calls Alone of HashThreads.tla.                          *)
(***************************************************************************)
EXTENDS ByteSeq, Sha256Fast, Json, IOUtils, FiniteSets, TLC
CONSTANT Focus

Lines == ndJsonDeserialize(IOEnv.TRACE)
Head0 == Lines[1]
Pool == Head0.pool
Digs == Head0.digs
PoolDigest == Tup([i \in 1..Len(Pool) |-> Digest(Pool[i])])
Batch == INSTANCE BatchHash WITH MaxBlocks <- 0, Contents <- {}, Pipelines <- << >>, backend <- 0, input <- << >>,
           stage <- 0, at <- 0, loaded <- << >>, stored <- {}, out <- << >>, reads <- {}, writes <- {}, done <- FALSE
Disp == INSTANCE Dispatch WITH cpu <- {}, maxleaf <- 0, hashers <- << >>, word <- 0

VARIABLES l, bad
vars == <<l, bad>>

InputOf(c) == Tup([i \in 1..c.n |-> PoolIndex(c, i - 1, Len(Pool))])
Digested(ix) == PoolDigest[ix]
ResultOk(c, out) == Len(out) = c.n /\ Tup([i \in 1..Len(out) |-> Digs[out[i]]]) = Batch!BatchResult(Digested, InputOf(c))

JudgeCall(e) ==
    IF e.fault # "" THEN IF e.fault = "segv" THEN {"touch", "crash"} ELSE {"crash"}
    ELSE (IF ResultOk(e, e.out) THEN {} ELSE {"digest"})
         \cup (IF e.kept /\ e.pre /\ e.post THEN {} ELSE {"touch"})
         \cup (IF e.regs = "" THEN {} ELSE {"regs"})
\* the memory of such a call ends long before its blocks do
JudgeHuge(e) == IF e.fault = "segv" THEN {} ELSE {"digest"}

JudgeCap(e) == IF e.got # Disp!Capability(ToSet(e.adv)) \/ ~e.stable THEN {"cap"} ELSE {}
Eight == [n |-> 8, s |-> 0, k |-> 1, z |-> <<0, 0>>]
JudgePick(e) ==
    LET feats == ToSet(e.adv)
        want == Disp!Chosen(e.req, feats)
    IN IF e.ran \notin {"", want} THEN {"pick"}
       ELSE IF ~Disp!Runnable(want, feats) THEN {}     \* a backend asked for by name on a CPU without it
       ELSE IF e.fault # "" THEN {"pick"}
       ELSE IF ~ResultOk(Eight, e.out) THEN {"digest"} ELSE {}

\* every distinct outcome of every overlapping call is what the call gives alone; a backend that is wrong
\* even alone is not the overlap's doing
Conc(e) == IF e.op = "nest" THEN <<e.a, e.b>> ELSE e.calls
Told(out) == Tup([i \in 1..Len(out) |-> Digs[out[i]]])
JudgeConc(e, calls) ==
    IF "solo" \notin DOMAIN e THEN {"digest"}
    ELSE (IF \E j \in 1..Len(calls) : ~ResultOk(calls[j], e.solo[j]) THEN {"digest"} ELSE {})
         \cup (IF \/ "crash" \in DOMAIN e
                  \/ \E j \in 1..Len(calls) : Len(e.outs[j]) = 0 \/ \E o \in ToSet(e.outs[j]) : Told(o) # Told(e.solo[j])
               THEN {"alone"} ELSE {})

Judge(e) == CASE e.op \in {"threads", "nest"} -> JudgeConc(e, Conc(e))
              [] "crash" \in DOMAIN e -> {"crash"}
              [] e.op = "call" -> JudgeCall(e)
              [] e.op = "huge" -> JudgeHuge(e)
              [] e.op = "cap" -> JudgeCap(e)
              [] e.op = "pick" -> JudgePick(e)

Init == l \in 2..Len(Lines) /\ bad = {"?"}
Next == bad = {"?"} /\ bad' = Judge(Lines[l]) /\ UNCHANGED l
        /\ (bad' \cap Focus = {} /\ bad' # {} => PrintT(<<"CUT", l, bad'>>))
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Focus = {}
=============================================================================
