---------------------------- MODULE VoteHistory ----------------------------
(***************************************************************************)
(* The slashing rule as a client uses it (SszObject!SlashableVotes): a     *)
(* validator signs votes one after another, and each new one is checked.   *)
(* Rule is what the signer checks before it signs:                         *)
(*   both     the new vote against every old one, in both orders           *)
(*   newold   only (new, old)                                              *)
(*   oldnew   only (old, new)                                              *)
(*   rising   source not below, target above every old one (EIP-3076)      *)
(*   double   only equal targets                                           *)
(*   none     nothing                                                      *)
(* A validator that checks both orders, or keeps its epochs rising, never  *)
(* holds two votes that are evidence against it; the laws of the rule hold *)
(* for every pair of votes met on the way.                                 *)
(***************************************************************************)
EXTENDS SszObject
CONSTANTS Epochs, Roots, MaxVotes, Rule

VARIABLES signed
vars == <<signed>>

E8(e) == PadTo(<<e>>, 8)
Vote(s, t, r) == <<Zeros(8), Zeros(8), PadTo(<<r>>, 32), <<E8(s), Zeros(32)>>, <<E8(t), Zeros(32)>>>>
Votes == {Vote(s, t, r) : s \in Epochs, t \in Epochs, r \in Roots}
Proper(v) == LeLE(SourceEpoch(v), TargetEpoch(v))

Allows(v) == CASE Rule = "both" -> \A u \in signed : ~SlashableVotes(v, u) /\ ~SlashableVotes(u, v)
               [] Rule = "newold" -> \A u \in signed : ~SlashableVotes(v, u)
               [] Rule = "oldnew" -> \A u \in signed : ~SlashableVotes(u, v)
               [] Rule = "rising" -> \A u \in signed : LeLE(SourceEpoch(u), SourceEpoch(v)) /\ LtLE(TargetEpoch(u), TargetEpoch(v))
               [] Rule = "double" -> \A u \in signed : ~DoubleVote(u, v)
               [] OTHER -> TRUE
Init == signed = {}
Sign(v) == /\ Proper(v) /\ Cardinality(signed) < MaxVotes /\ Allows(v) /\ signed' = signed \cup {v}
Next == \E v \in Votes : Sign(v)

NoEvidence == \A u, v \in signed : ~SlashableVotes(u, v)
\* laws of the rule, for votes that were signed under any regime
Laws ==
    \A u, v \in signed :
        /\ ~SlashableVotes(u, u)
        /\ DoubleVote(u, v) = DoubleVote(v, u)
        /\ SurroundVote(u, v) => ~SurroundVote(v, u) /\ ~DoubleVote(u, v)
        /\ \A w \in signed : SurroundVote(u, v) /\ SurroundVote(v, w) => SurroundVote(u, w)
        /\ (TargetEpoch(u) = TargetEpoch(v) /\ u # v) => SlashableVotes(u, v)
        /\ SlashableVotes(u, v) /\ SourceEpoch(u) = SourceEpoch(v) => TargetEpoch(u) = TargetEpoch(v)
=============================================================================
