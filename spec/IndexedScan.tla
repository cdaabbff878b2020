---------------------------- MODULE IndexedScan ----------------------------
(***************************************************************************)
(* Design of the check of an indexed attestation's indices, against        *)
(* SszObject!StrictlyAscending: a pass that looks for a descent, a pass    *)
(* that looks for two equal neighbours. Passes names what is done:         *)
(* "sorted", "distinct", "empty" (an empty list is refused), "from2" (the  *)
(* passes start at the second element), "ends" (only first and last are    *)
(* compared for equality).                                                 *)
(***************************************************************************)
EXTENDS SszObject
CONSTANTS Values, MaxIndices, Passes

VARIABLES ix, pass, k, res
vars == <<ix, pass, k, res>>

U8(e) == PadTo(<<e>>, 8)
Lists == UNION {{Tup([i \in 1..n |-> U8(f[i])]) : f \in [1..n -> Values]} : n \in 0..MaxIndices}
Has(p) == p \in Passes
First == IF Has("from2") THEN 2 ELSE 1
Init == ix \in Lists /\ pass = 1 /\ k = First /\ res = "run"
Say(r) == res' = r /\ UNCHANGED <<ix, pass, k>>
Go == /\ res = "run"
      /\ IF Len(ix) = 0 /\ Has("empty") THEN Say("bad")
         ELSE IF k + 1 > Len(ix)
         THEN IF pass = 2 THEN Say("ok") ELSE pass' = 2 /\ k' = First /\ UNCHANGED <<ix, res>>
         ELSE IF pass = 1 /\ Has("sorted") /\ LtLE(ix[k + 1], ix[k]) THEN Say("bad")
         ELSE IF pass = 2 /\ Has("distinct") /\ ix[k + 1] = ix[k] THEN Say("bad")
         ELSE IF pass = 2 /\ Has("ends") /\ ix[1] = ix[Len(ix)] THEN Say("bad")
         ELSE k' = k + 1 /\ UNCHANGED <<ix, pass, res>>
Spec == Init /\ [][Go]_vars /\ WF_vars(Go)

Strict == res # "run" => ((res = "ok") = (Len(ix) > 0 /\ StrictlyAscending(ix)))
AsSet == res = "ok" => Cardinality({ix[i] : i \in 1..Len(ix)}) = Len(ix)
Finishes == <>(res # "run")
=============================================================================
