----------------------------- MODULE HashThreads -----------------------------
(***************************************************************************)
(* Hash calls in progress at the same time: on several threads, and        *)
(* nested on one thread when a signal handler hashes while a call it       *)
(* interrupted is half done. A call hashes its blocks one round at a time: *)
(* load, save the running state to a scratch area, compute, read the       *)
(* scratch area back and store the digest. Scratch is per call (a stack    *)
(* frame) or one static area: Shared = TRUE is the variant that breaks.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Blocks, MaxNest, Shared

Static == <<0, 0>>
VARIABLES stack,    \* per thread: the frames in progress, innermost last
          scratch,  \* contents of each scratch area
          results,  \* finished calls: what they returned against what they should
          calls     \* number of calls started
vars == <<stack, scratch, results, calls>>

Area(t, d) == IF Shared THEN Static ELSE <<t, d>>
Areas == {Static} \cup (Threads \X (1..(MaxNest + 1)))

\* one frame: the contents to hash, progress, digests so far
Frame(id) == [id |-> id, blk |-> 1, pc |-> "load", reg |-> 0, out |-> << >>]
Content(id, b) == 10 * id + b

Init == /\ stack = [t \in Threads |-> << >>]
        /\ scratch = [a \in Areas |-> 0]
        /\ results = {} /\ calls = 0

Depth(t) == Len(stack[t])
Top(t) == stack[t][Depth(t)]
SetTop(t, f) == stack' = [stack EXCEPT ![t][Depth(t)] = f]

\* a thread calls, or a handler interrupts the call it is in, at any point
Call(t) == /\ Depth(t) <= MaxNest /\ calls < Cardinality(Threads) + MaxNest
           /\ calls' = calls + 1
           /\ stack' = [stack EXCEPT ![t] = Append(@, Frame(calls + 1))]
           /\ UNCHANGED <<scratch, results>>
Step(t) ==
    /\ Depth(t) > 0
    /\ LET f == Top(t) a == Area(t, Depth(t)) IN
       CASE f.pc = "load" -> SetTop(t, [f EXCEPT !.reg = Content(f.id, f.blk), !.pc = "save"]) /\ UNCHANGED <<scratch, results>>
         [] f.pc = "save" -> SetTop(t, [f EXCEPT !.pc = "compute"]) /\ scratch' = [scratch EXCEPT ![a] = f.reg] /\ UNCHANGED results
         [] f.pc = "compute" -> SetTop(t, [f EXCEPT !.reg = 0, !.pc = "store"]) /\ UNCHANGED <<scratch, results>>
         [] f.pc = "store" ->
              LET g == [f EXCEPT !.out = Append(@, scratch[a])] IN
              IF f.blk < Blocks
              THEN SetTop(t, [g EXCEPT !.blk = @ + 1, !.pc = "load"]) /\ UNCHANGED <<scratch, results>>
              ELSE /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Depth(t) - 1)]
                   /\ results' = results \cup {<<f.id, g.out>>}
                   /\ UNCHANGED scratch
    /\ UNCHANGED calls
Next == \E t \in Threads : Call(t) \/ Step(t)
Spec == Init /\ [][Next]_vars

Alone == \A r \in results : r[2] = [b \in 1..Blocks |-> Content(r[1], b)]
=============================================================================
