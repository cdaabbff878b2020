------------------------------ MODULE BatchHash ------------------------------
(***************************************************************************)
(* Batch hashing of n 64-byte blocks the way the backends do it: a backend *)
(* is a sequence of lane widths; each stage takes blocks off the front of  *)
(* the batch w at a time while at least w are left and hands the rest to   *)
(* the next stage. Lanes of one round load in any order before any digest  *)
(* of the round is stored, and store in any order. Digests are symbolic:   *)
(* D(c) stands for SHA-256 of content c. BatchResult is the whole          *)
(* contract; the trace specification HashTrace.tla judges recorded calls   *)
(* of the real code by the same operator with real digests.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxBlocks, Contents, Pipelines   \* Pipelines: backend name -> widths

\* what a batch call must leave in the output
BatchResult(D(_), blocks) == [i \in 1..Len(blocks) |-> D(blocks[i])]

\* what the code has; a stage list that stops above width 1 would lose blocks
RealPipelines == [ SHA |-> <<2, 1>>, AVX2 |-> <<8, 4, 1>>, AVX |-> <<4, 1>>, SSE |-> <<1>> ]
ForgetfulPipelines == [ SHA |-> <<2>>, AVX2 |-> <<8, 1>> ]
GreedyPipelines == [ AVX |-> <<4>> ]

VARIABLES backend, input, stage, at, loaded, stored, out, reads, writes, done
vars == <<backend, input, stage, at, loaded, stored, out, reads, writes, done>>

N == Len(input)
Widths == Pipelines[backend]
W == Widths[stage]
Old == <<"old", 0>>
D(c) == <<"digest", c>>

Init == /\ backend \in DOMAIN Pipelines
        /\ \E n \in 0..MaxBlocks : input \in [1..n -> Contents]
        /\ stage = 1 /\ at = 0
        /\ loaded = << >> /\ stored = {}
        /\ out = [i \in 1..Len(input) |-> Old]
        /\ reads = {} /\ writes = {} /\ done = FALSE

Left == N - at
Round == stage <= Len(Widths) /\ Left >= W
\* lanes are loaded in order of lane number only to keep the model small; the store order is free
Load == /\ ~done /\ Round /\ Len(loaded) < W /\ stored = {}
        /\ LET i == at + Len(loaded) + 1
           IN loaded' = Append(loaded, input[i]) /\ reads' = reads \cup {i}
        /\ UNCHANGED <<backend, input, stage, at, stored, out, writes, done>>
Store(k) == /\ ~done /\ Round /\ Len(loaded) = W /\ k \notin stored
            /\ out' = [out EXCEPT ![at + k] = D(loaded[k])]
            /\ writes' = writes \cup {at + k}
            /\ IF stored \cup {k} = 1..W
               THEN at' = at + W /\ loaded' = << >> /\ stored' = {}
               ELSE stored' = stored \cup {k} /\ UNCHANGED <<at, loaded>>
            /\ UNCHANGED <<backend, input, stage, reads, done>>
NextStage == /\ ~done /\ ~Round /\ stage < Len(Widths)
             /\ stage' = stage + 1
             /\ UNCHANGED <<backend, input, at, loaded, stored, out, reads, writes, done>>
Return == /\ ~done /\ ~Round /\ stage = Len(Widths)
          /\ done' = TRUE
          /\ UNCHANGED <<backend, input, stage, at, loaded, stored, out, reads, writes>>
Next == Load \/ (\E k \in 1..8 : k <= W /\ Store(k)) \/ NextStage \/ Return \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == reads \subseteq 1..N /\ writes \subseteq 1..N
Correct == done => out = BatchResult(D, input)
\* a digest, once stored, is right: callers may watch the output fill up
Prefix == \A i \in 1..N : out[i] \in {Old, D(input[i])}
EachReadOnce == done => Cardinality(reads) = N
Returns == <>done
=============================================================================
