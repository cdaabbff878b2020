------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Which backend a Hasher uses: the CPU's feature set, as cpuid tells it,  *)
(* against what the program asks for. The capability word has one bit per  *)
(* extension: SSE3 1, AVX 2, AVX2 4, SHA 8.                                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

Features == {"sha", "avx2", "avx", "sse3"}
Bit(f) == CASE f = "sse3" -> 1 [] f = "avx" -> 2 [] f = "avx2" -> 4 [] f = "sha" -> 8
RECURSIVE SumBits(_)
SumBits(S) == IF S = {} THEN 0 ELSE LET f == CHOOSE x \in S : TRUE IN Bit(f) + SumBits(S \ {f})
\* what implemented() reports on a CPU with features S
Capability(S) == SumBits(S \cap Features)

\* cpuid: leaf 7 may be absent (old CPU or limited hypervisor); then it reports nothing
Leaf7(S, maxleaf) == IF maxleaf >= 7 THEN S \cap {"sha", "avx2"} ELSE {}
Leaf1(S) == S \cap {"avx", "sse3"}
Advertised(S, maxleaf) == Leaf7(S, maxleaf) \cup Leaf1(S)

Best(S) == IF "sha" \in S THEN "SHA" ELSE IF "avx2" \in S THEN "AVX2" ELSE IF "avx" \in S THEN "AVX" ELSE "SSE"
\* requests are the values of the IMPL enumeration, combined or not; -1 is the default constructor
Chosen(req, S) == CASE req = 8 -> "SHA" [] req = 4 -> "AVX2" [] req = 2 -> "AVX" [] req = 1 -> "SSE" [] OTHER -> Best(S)

\* extensions the code of a backend executes; AVX2 hands its rest to AVX code
Needs(b) == CASE b = "SHA" -> {"sha"} [] b = "AVX2" -> {"avx2", "avx"} [] b = "AVX" -> {"avx"} [] b = "SSE" -> {"avx"}
Runnable(b, S) == Needs(b) \subseteq S

\* every real CPU with AVX2 has AVX; the README asks for SHA or AVX2
Consistent(S) == "avx2" \in S => "avx" \in S
Supported(S) == "sha" \in S \/ "avx" \in S

VARIABLES cpu, maxleaf, hashers, word
vars == <<cpu, maxleaf, hashers, word>>
Init == /\ cpu \in SUBSET Features /\ maxleaf \in {1, 6, 7}
        /\ hashers = << >> /\ word = 0 - 1
Ask == word' = Capability(Advertised(cpu, maxleaf)) /\ UNCHANGED <<cpu, maxleaf, hashers>>
Construct(req) == /\ Len(hashers) < 2
                  /\ hashers' = Append(hashers, [req |-> req, b |-> Chosen(req, Advertised(cpu, maxleaf))])
                  /\ UNCHANGED <<cpu, maxleaf, word>>
Next == Ask \/ \E req \in (0 - 1)..15 : Construct(req)
Spec == Init /\ [][Next]_vars

WordMatches == word \in {0 - 1, Capability(Advertised(cpu, maxleaf))}
NamedIsHonoured == \A i \in 1..Len(hashers) : hashers[i].req \in {1, 2, 4, 8} =>
                       hashers[i].b = (CASE hashers[i].req = 1 -> "SSE" [] hashers[i].req = 2 -> "AVX"
                                         [] hashers[i].req = 4 -> "AVX2" [] OTHER -> "SHA")
AutomaticIsRunnable ==
    \A i \in 1..Len(hashers) :
        hashers[i].req \notin {1, 2, 4, 8} /\ Consistent(Advertised(cpu, maxleaf)) /\ Supported(Advertised(cpu, maxleaf))
        => Runnable(hashers[i].b, cpu)
AutomaticAgree == \A i, j \in 1..Len(hashers) :
        hashers[i].req \notin {1, 2, 4, 8} /\ hashers[j].req \notin {1, 2, 4, 8} => hashers[i].b = hashers[j].b
=============================================================================
