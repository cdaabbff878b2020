------------------------------- MODULE Phase0 -------------------------------
(***************************************************************************)
(* The phase-0 consensus types of the two presets, and the type           *)
(* constructors the library offers, as SSZ schemas.                        *)
(***************************************************************************)
EXTENDS Ssz, TLC
CONSTANT Preset   \* "minimal" or "mainnet"

Minimal == Preset = "minimal"

U64 == TUint(8)
Root == TBytes(32)
Sig == TBytes(96)
Pubkey == TBytes(48)
Version == TBytes(4)

SLOTS_PER_EPOCH == IF Minimal THEN 8 ELSE 32
SLOTS_PER_HISTORICAL_ROOT == IF Minimal THEN 64 ELSE 8192
EPOCHS_PER_HISTORICAL_VECTOR == IF Minimal THEN 64 ELSE 65536
EPOCHS_PER_SLASHINGS_VECTOR == IF Minimal THEN 64 ELSE 8192
EPOCHS_PER_ETH1_VOTING_PERIOD == IF Minimal THEN 4 ELSE 64
MAX_VALIDATORS_PER_COMMITTEE == 2048
MAX_ATTESTATIONS == 128
MAX_PROPOSER_SLASHINGS == 16
MAX_ATTESTER_SLASHINGS == 2
MAX_DEPOSITS == 16
MAX_VOLUNTARY_EXITS == 16
DEPOSIT_CONTRACT_TREE_DEPTH == 32
JUSTIFICATION_BITS_LENGTH == 4
HISTORICAL_ROOTS_LIMIT_EXP == 24
VALIDATOR_REGISTRY_LIMIT_EXP == 40

\* these are the constants of Presets.tla
P == INSTANCE Presets
Agrees(n, name) == ToString(n) = P!Constant(Preset, name)
ASSUME /\ Agrees(SLOTS_PER_EPOCH, "SLOTS_PER_EPOCH")
       /\ Agrees(SLOTS_PER_HISTORICAL_ROOT, "SLOTS_PER_HISTORICAL_ROOT")
       /\ Agrees(EPOCHS_PER_HISTORICAL_VECTOR, "EPOCHS_PER_HISTORICAL_VECTOR")
       /\ Agrees(EPOCHS_PER_SLASHINGS_VECTOR, "EPOCHS_PER_SLASHINGS_VECTOR")
       /\ Agrees(EPOCHS_PER_ETH1_VOTING_PERIOD, "EPOCHS_PER_ETH1_VOTING_PERIOD")
       /\ Agrees(MAX_VALIDATORS_PER_COMMITTEE, "MAX_VALIDATORS_PER_COMMITTEE")
       /\ Agrees(MAX_ATTESTATIONS, "MAX_ATTESTATIONS")
       /\ Agrees(MAX_PROPOSER_SLASHINGS, "MAX_PROPOSER_SLASHINGS")
       /\ Agrees(MAX_ATTESTER_SLASHINGS, "MAX_ATTESTER_SLASHINGS")
       /\ Agrees(MAX_DEPOSITS, "MAX_DEPOSITS")
       /\ Agrees(MAX_VOLUNTARY_EXITS, "MAX_VOLUNTARY_EXITS")
       /\ Agrees(DEPOSIT_CONTRACT_TREE_DEPTH, "DEPOSIT_CONTRACT_TREE_DEPTH")
       /\ Agrees(JUSTIFICATION_BITS_LENGTH, "JUSTIFICATION_BITS_LENGTH")
       /\ Agrees(Pow2(HISTORICAL_ROOTS_LIMIT_EXP), "HISTORICAL_ROOTS_LIMIT")

TFork == TCont(<< Fld("previous_version", Version), Fld("current_version", Version), Fld("epoch", U64) >>)
TForkData == TCont(<< Fld("current_version", Version), Fld("genesis_validators_root", Root) >>)
TCheckpoint == TCont(<< Fld("epoch", U64), Fld("root", Root) >>)
TSigningData == TCont(<< Fld("object_root", Root), Fld("domain", TBytes(32)) >>)
TAttestationData == TCont(<< Fld("slot", U64), Fld("index", U64), Fld("beacon_block_root", Root),
                             Fld("source", TCheckpoint), Fld("target", TCheckpoint) >>)
TIndexedAttestation == TCont(<< Fld("attesting_indices", TList(U64, LimNat(MAX_VALIDATORS_PER_COMMITTEE))),
                                Fld("data", TAttestationData), Fld("signature", Sig) >>)
TPendingAttestation == TCont(<< Fld("aggregation_bits", TBitlist(LimNat(MAX_VALIDATORS_PER_COMMITTEE))),
                                Fld("data", TAttestationData), Fld("inclusion_delay", U64),
                                Fld("proposer_index", U64) >>)
TAttestation == TCont(<< Fld("aggregation_bits", TBitlist(LimNat(MAX_VALIDATORS_PER_COMMITTEE))),
                         Fld("data", TAttestationData), Fld("signature", Sig) >>)
TDepositMessage == TCont(<< Fld("pubkey", Pubkey), Fld("withdrawal_credentials", Root), Fld("amount", U64) >>)
TDepositData == TCont(<< Fld("pubkey", Pubkey), Fld("withdrawal_credentials", Root), Fld("amount", U64),
                         Fld("signature", Sig) >>)
TDeposit == TCont(<< Fld("proof", TVec(Root, DEPOSIT_CONTRACT_TREE_DEPTH + 1)), Fld("data", TDepositData) >>)
TEth1Data == TCont(<< Fld("deposit_root", Root), Fld("deposit_count", U64), Fld("block_hash", Root) >>)
TBeaconBlockHeader == TCont(<< Fld("slot", U64), Fld("proposer_index", U64), Fld("parent_root", Root),
                               Fld("state_root", Root), Fld("body_root", Root) >>)
TSignedBeaconBlockHeader == TCont(<< Fld("message", TBeaconBlockHeader), Fld("signature", Sig) >>)
TProposerSlashing == TCont(<< Fld("signed_header_1", TSignedBeaconBlockHeader),
                              Fld("signed_header_2", TSignedBeaconBlockHeader) >>)
TAttesterSlashing == TCont(<< Fld("attestation_1", TIndexedAttestation),
                              Fld("attestation_2", TIndexedAttestation) >>)
TVoluntaryExit == TCont(<< Fld("epoch", U64), Fld("validator_index", U64) >>)
TSignedVoluntaryExit == TCont(<< Fld("message", TVoluntaryExit), Fld("signature", Sig) >>)
TBeaconBlockBody == TCont(<<
    Fld("randao_reveal", Sig), Fld("eth1_data", TEth1Data), Fld("graffiti", Root),
    Fld("proposer_slashings", TList(TProposerSlashing, LimNat(MAX_PROPOSER_SLASHINGS))),
    Fld("attester_slashings", TList(TAttesterSlashing, LimNat(MAX_ATTESTER_SLASHINGS))),
    Fld("attestations", TList(TAttestation, LimNat(MAX_ATTESTATIONS))),
    Fld("deposits", TList(TDeposit, LimNat(MAX_DEPOSITS))),
    Fld("voluntary_exits", TList(TSignedVoluntaryExit, LimNat(MAX_VOLUNTARY_EXITS))) >>)
TBeaconBlock == TCont(<< Fld("slot", U64), Fld("proposer_index", U64), Fld("parent_root", Root),
                         Fld("state_root", Root), Fld("body", TBeaconBlockBody) >>)
TSignedBeaconBlock == TCont(<< Fld("message", TBeaconBlock), Fld("signature", Sig) >>)
TValidator == TCont(<< Fld("pubkey", Pubkey), Fld("withdrawal_credentials", Root),
                       Fld("effective_balance", U64), Fld("slashed", TBool),
                       Fld("activation_eligibility_epoch", U64), Fld("activation_epoch", U64),
                       Fld("exit_epoch", U64), Fld("withdrawable_epoch", U64) >>)
TBeaconState == TCont(<<
    Fld("genesis_time", U64), Fld("genesis_validators_root", Root), Fld("slot", U64), Fld("fork", TFork),
    Fld("latest_block_header", TBeaconBlockHeader),
    Fld("block_roots", TVec(Root, SLOTS_PER_HISTORICAL_ROOT)),
    Fld("state_roots", TVec(Root, SLOTS_PER_HISTORICAL_ROOT)),
    Fld("historical_roots", TList(Root, LimExp(HISTORICAL_ROOTS_LIMIT_EXP))),
    Fld("eth1_data", TEth1Data),
    Fld("eth1_data_votes", TList(TEth1Data, LimNat(EPOCHS_PER_ETH1_VOTING_PERIOD * SLOTS_PER_EPOCH))),
    Fld("eth1_deposit_index", U64),
    Fld("validators", TList(TValidator, LimExp(VALIDATOR_REGISTRY_LIMIT_EXP))),
    Fld("balances", TList(U64, LimExp(VALIDATOR_REGISTRY_LIMIT_EXP))),
    Fld("randao_mixes", TVec(Root, EPOCHS_PER_HISTORICAL_VECTOR)),
    Fld("slashings", TVec(U64, EPOCHS_PER_SLASHINGS_VECTOR)),
    Fld("previous_epoch_attestations", TList(TPendingAttestation, LimNat(MAX_ATTESTATIONS * SLOTS_PER_EPOCH))),
    Fld("current_epoch_attestations", TList(TPendingAttestation, LimNat(MAX_ATTESTATIONS * SLOTS_PER_EPOCH))),
    Fld("justification_bits", TBitvec(JUSTIFICATION_BITS_LENGTH)),
    Fld("previous_justified_checkpoint", TCheckpoint),
    Fld("current_justified_checkpoint", TCheckpoint),
    Fld("finalized_checkpoint", TCheckpoint) >>)

N(name, t) == [name |-> name, t |-> t]
ConsensusTypes == <<
    N("Fork", TFork), N("ForkData", TForkData), N("Checkpoint", TCheckpoint), N("SigningData", TSigningData),
    N("AttestationData", TAttestationData), N("IndexedAttestation", TIndexedAttestation),
    N("PendingAttestation", TPendingAttestation), N("Attestation", TAttestation),
    N("DepositMessage", TDepositMessage), N("DepositData", TDepositData), N("Deposit", TDeposit),
    N("Eth1Data", TEth1Data), N("BeaconBlockHeader", TBeaconBlockHeader),
    N("SignedBeaconBlockHeader", TSignedBeaconBlockHeader), N("ProposerSlashing", TProposerSlashing),
    N("AttesterSlashing", TAttesterSlashing), N("VoluntaryExit", TVoluntaryExit),
    N("SignedVoluntaryExit", TSignedVoluntaryExit), N("BeaconBlockBody", TBeaconBlockBody),
    N("BeaconBlock", TBeaconBlock), N("SignedBeaconBlock", TSignedBeaconBlock),
    N("Validator", TValidator), N("BeaconState", TBeaconState) >>

\* instances of the library's building blocks that no phase-0 type happens to use
GenericTypes == <<
    N("Slot", U64), N("Boolean", TBool), N("Bytes1", TBytes(1)), N("Bytes4", TBytes(4)), N("Bytes20", TBytes(20)),
    N("Bytes32", TBytes(32)), N("Bytes33", TBytes(33)), N("Bytes48", TBytes(48)), N("Bytes64", TBytes(64)),
    N("Bytes96", TBytes(96)), N("Bytes160", TBytes(160)),
    N("Bitvector1", TBitvec(1)), N("Bitvector4", TBitvec(4)), N("Bitvector7", TBitvec(7)), N("Bitvector8", TBitvec(8)),
    N("Bitvector9", TBitvec(9)), N("Bitvector16", TBitvec(16)), N("Bitvector31", TBitvec(31)),
    N("Bitvector256", TBitvec(256)), N("Bitvector257", TBitvec(257)), N("Bitvector513", TBitvec(513)),
    N("Bitlist_0", TBitlist(NoLimit)), N("Bitlist_1", TBitlist(LimNat(1))), N("Bitlist_5", TBitlist(LimNat(5))),
    N("Bitlist_8", TBitlist(LimNat(8))), N("Bitlist_9", TBitlist(LimNat(9))), N("Bitlist_31", TBitlist(LimNat(31))),
    N("Bitlist_256", TBitlist(LimNat(256))), N("Bitlist_257", TBitlist(LimNat(257))),
    N("Bitlist_600", TBitlist(LimNat(600))), N("Bitlist_e11", TBitlist(LimExp(11))),
    N("Bitlist_e40", TBitlist(LimExp(40))),
    N("ListSlot_0", TList(U64, NoLimit)), N("ListSlot_1", TList(U64, LimNat(1))), N("ListSlot_3", TList(U64, LimNat(3))),
    N("ListSlot_4", TList(U64, LimNat(4))), N("ListSlot_5", TList(U64, LimNat(5))),
    N("ListSlot_9", TList(U64, LimNat(9))), N("ListSlot_e10", TList(U64, LimExp(10))),
    N("ListSlot_e40", TList(U64, LimExp(40))),
    N("ListBoolean_0", TList(TBool, NoLimit)), N("ListBoolean_33", TList(TBool, LimNat(33))),
    N("ListBytes4_3", TList(TBytes(4), LimNat(3))),
    N("ListBytes32_0", TList(Root, NoLimit)), N("ListBytes32_1", TList(Root, LimNat(1))),
    N("ListBytes32_2", TList(Root, LimNat(2))), N("ListBytes32_3", TList(Root, LimNat(3))),
    N("ListBytes32_8", TList(Root, LimNat(8))), N("ListBytes32_e24", TList(Root, LimExp(24))),
    N("ListCheckpoint_6", TList(TCheckpoint, LimNat(6))), N("ListValidator_e40", TList(TValidator, LimExp(40))),
    N("ListAttestation_0", TList(TAttestation, NoLimit)), N("ListAttestation_3", TList(TAttestation, LimNat(3))),
    N("ListIndexedAttestation_4", TList(TIndexedAttestation, LimNat(4))),
    N("ListBitlist_5", TList(TBitlist(NoLimit), LimNat(5))),
    N("ListListSlot_4", TList(TList(U64, NoLimit), LimNat(4))),
    N("ListAttesterSlashing_2", TList(TAttesterSlashing, LimNat(2))),
    N("VectorSlot1", TVec(U64, 1)), N("VectorSlot3", TVec(U64, 3)), N("VectorSlot4", TVec(U64, 4)),
    N("VectorSlot5", TVec(U64, 5)), N("VectorSlot33", TVec(U64, 33)),
    N("VectorBoolean5", TVec(TBool, 5)), N("VectorBoolean33", TVec(TBool, 33)),
    N("VectorBytes32_1", TVec(Root, 1)), N("VectorBytes32_2", TVec(Root, 2)), N("VectorBytes32_3", TVec(Root, 3)),
    N("VectorBytes32_5", TVec(Root, 5)), N("VectorBytes48_3", TVec(TBytes(48), 3)),
    N("VectorCheckpoint1", TVec(TCheckpoint, 1)), N("VectorCheckpoint3", TVec(TCheckpoint, 3)),
    N("VectorVectorSlot5_3", TVec(TVec(U64, 5), 3)) >>

Types == ConsensusTypes \o GenericTypes
TypeNames == { Types[i].name : i \in 1..Len(Types) }
TypeOf == [n \in TypeNames |-> (Types[CHOOSE i \in 1..Len(Types) : Types[i].name = n]).t]
=============================================================================
