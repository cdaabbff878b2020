---------------------------- MODULE PresetShapes ----------------------------
(***************************************************************************)
(* What the constants and the types of a preset must satisfy, against      *)
(* facts that do not come from them: the lengths every client knows the    *)
(* encodings by, and the relations the consensus specification relies on.  *)
(* A type is built up field by field; its shortest encoding grows with it. *)
(* Wrong names a slip: "none"; "proof" (no room for the deposit count in a *)
(* Merkle proof), "other" (vectors of the other preset), "epoch" (votes of *)
(* one epoch, not of a voting period), "half" (a list in the place of a    *)
(* vector), "flag" (a flag as wide as an integer).                         *)
(***************************************************************************)
EXTENDS Phase0
CONSTANT Wrong
VARIABLES type, done, length
vars == <<type, done, length>>

SizesOfBoth ==
    [Fork |-> 16, ForkData |-> 36, Checkpoint |-> 40, SigningData |-> 64, AttestationData |-> 128,
     IndexedAttestation |-> 228, PendingAttestation |-> 149, Attestation |-> 229, DepositMessage |-> 88,
     DepositData |-> 184, Deposit |-> 1240, Eth1Data |-> 72, BeaconBlockHeader |-> 112,
     SignedBeaconBlockHeader |-> 208, ProposerSlashing |-> 416, AttesterSlashing |-> 464, VoluntaryExit |-> 16,
     SignedVoluntaryExit |-> 112, BeaconBlockBody |-> 220, BeaconBlock |-> 304, SignedBeaconBlock |-> 404,
     Validator |-> 121]
Known(name) == IF name = "BeaconState" THEN IF Minimal THEN 7057 ELSE 2687377 ELSE SizesOfBoth[name]

Slipped(t) ==
    CASE Wrong = "proof" /\ t = TVec(Root, DEPOSIT_CONTRACT_TREE_DEPTH + 1) -> TVec(Root, DEPOSIT_CONTRACT_TREE_DEPTH)
      [] Wrong = "other" /\ t = TVec(Root, EPOCHS_PER_HISTORICAL_VECTOR) -> TVec(Root, IF Minimal THEN 65536 ELSE 64)
      [] Wrong = "epoch" /\ t = TList(TEth1Data, LimNat(EPOCHS_PER_ETH1_VOTING_PERIOD * SLOTS_PER_EPOCH)) -> TList(TEth1Data, LimNat(SLOTS_PER_EPOCH))
      [] Wrong = "half" /\ t = TVec(U64, EPOCHS_PER_SLASHINGS_VECTOR) -> TList(U64, LimNat(EPOCHS_PER_SLASHINGS_VECTOR))
      [] Wrong = "flag" /\ t = TBool -> U64
      [] OTHER -> t
RECURSIVE Least(_)
Least(t) == LET s == Slipped(t) IN
    CASE s.k = "list" -> 0
      [] s.k = "bitlist" -> 1
      [] s.k = "vec" -> s.n * (Least(s.t) + IF IsFixed(s.t) THEN 0 ELSE OffsetBytes)
      [] s.k = "cont" -> Sum(Tup([i \in 1..Len(s.fs) |-> Least(s.fs[i].t) + IF IsFixed(Slipped(s.fs[i].t)) THEN 0 ELSE OffsetBytes]))
      [] OTHER -> FixedSize(s)

Fields == ConsensusTypes[type].t.fs
Name == ConsensusTypes[type].name
Init == type \in 1..Len(ConsensusTypes) /\ done = 0 /\ length = 0
Add == /\ done < Len(Fields)
       /\ done' = done + 1
       /\ LET t == Fields[done + 1].t
          IN length' = length + Least(t) + IF IsFixed(Slipped(t)) THEN 0 ELSE OffsetBytes
       /\ UNCHANGED type
Next == Add
Spec == Init /\ [][Next]_vars

Complete == done = Len(Fields)
Listed == Complete => length = Known(Name)
Declared == Complete /\ Wrong = "none" => DeclaredSize(ConsensusTypes[type].t) \in {0, length}
\* a limit, as a number or as an exponent
Power(lim, e) == lim = LimExp(e) \/ (e < 31 /\ lim = LimNat(Pow2(e)))
LimitsOf(f) ==
    CASE f = "attesting_indices" -> 11 [] f = "aggregation_bits" -> 11 [] f = "proposer_slashings" -> 4
      [] f = "attester_slashings" -> 1 [] f = "attestations" -> 7 [] f = "deposits" -> 4 [] f = "voluntary_exits" -> 4
      [] f = "historical_roots" -> 24 [] f = "validators" -> 40 [] f = "balances" -> 40
      [] f = "eth1_data_votes" -> IF Minimal THEN 5 ELSE 11
      [] f \in {"previous_epoch_attestations", "current_epoch_attestations"} -> IF Minimal THEN 10 ELSE 12
      [] OTHER -> 0
Bounded == \A i \in 1..done : LET t == Slipped(Fields[i].t)
                              IN t.k \in {"list", "bitlist"} => LimitsOf(Fields[i].f) > 0 /\ Power(t.lim, LimitsOf(Fields[i].f))
\* a field name stands for one thing in a type, and is never empty
NamesApart == \A i, j \in 1..done : Fields[i].f = Fields[j].f => i = j

IsPower(n) == \E e \in 0..30 : n = Pow2(e)
C(name) == P!Constant(Preset, name)
Related == done = 0 =>
    /\ \A n \in {SLOTS_PER_EPOCH, SLOTS_PER_HISTORICAL_ROOT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR,
                 EPOCHS_PER_ETH1_VOTING_PERIOD, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTATIONS, MAX_DEPOSITS} : IsPower(n)
    /\ SLOTS_PER_HISTORICAL_ROOT > SLOTS_PER_EPOCH
    /\ EPOCHS_PER_HISTORICAL_VECTOR >= EPOCHS_PER_SLASHINGS_VECTOR
    /\ C("EFFECTIVE_BALANCE_INCREMENT") = "1" \o "000000000"
    /\ C("MAX_EFFECTIVE_BALANCE") = "32" \o "000000000"
    /\ C("EJECTION_BALANCE") = "16" \o "000000000"
    /\ C("MIN_DEPOSIT_AMOUNT") = C("EFFECTIVE_BALANCE_INCREMENT")
    /\ P!Names(Preset) = DOMAIN P!Common \cup DOMAIN P!Mainnet
    /\ DOMAIN P!Mainnet \cap DOMAIN P!Common = {}
=============================================================================
