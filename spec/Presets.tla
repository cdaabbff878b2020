------------------------------ MODULE Presets ------------------------------
(***************************************************************************)
(* The phase-0 constants: preset-independent ones, and the minimal and     *)
(* mainnet presets and configurations. A number is written in decimal (TLC *)
(* numbers have 32 bits), a byte string in hex.                            *)
(***************************************************************************)
Common == [
  GENESIS_SLOT |-> "0", GENESIS_EPOCH |-> "0", FAR_FUTURE_EPOCH |-> "18446744073709551615",
  BASE_REWARDS_PER_EPOCH |-> "4", DEPOSIT_CONTRACT_TREE_DEPTH |-> "32", JUSTIFICATION_BITS_LENGTH |-> "4",
  MAX_EFFECTIVE_BALANCE |-> "32000000000", MIN_DEPOSIT_AMOUNT |-> "1000000000",
  EFFECTIVE_BALANCE_INCREMENT |-> "1000000000", MIN_ATTESTATION_INCLUSION_DELAY |-> "1",
  BYTES_PER_CHUNK |-> "32", BYTES_PER_LENGTH_OFFSET |-> "4", BITS_PER_BYTE |-> "8",
  SECONDS_PER_ETH1_BLOCK |-> "14", MIN_VALIDATOR_WITHDRAWABILITY_DELAY |-> "256",
  EJECTION_BALANCE |-> "16000000000", MIN_PER_EPOCH_CHURN_LIMIT |-> "4", CHURN_LIMIT_QUOTIENT |-> "65536",
  MAX_VALIDATORS_PER_COMMITTEE |-> "2048", HYSTERESIS_QUOTIENT |-> "4", HYSTERESIS_DOWNWARD_MULTIPLIER |-> "1",
  HYSTERESIS_UPWARD_MULTIPLIER |-> "5", MIN_SEED_LOOKAHEAD |-> "1", MAX_SEED_LOOKAHEAD |-> "4",
  MIN_EPOCHS_TO_INACTIVITY_PENALTY |-> "4", HISTORICAL_ROOTS_LIMIT |-> "16777216",
  VALIDATOR_REGISTRY_LIMIT |-> "1099511627776", BASE_REWARD_FACTOR |-> "64", WHISTLEBLOWER_REWARD_QUOTIENT |-> "512",
  PROPOSER_REWARD_QUOTIENT |-> "8", MAX_PROPOSER_SLASHINGS |-> "16", MAX_ATTESTER_SLASHINGS |-> "2",
  MAX_ATTESTATIONS |-> "128", MAX_DEPOSITS |-> "16", MAX_VOLUNTARY_EXITS |-> "16" ]

Minimal == [
  MIN_GENESIS_ACTIVE_VALIDATOR_COUNT |-> "64", MIN_GENESIS_TIME |-> "1578009600", GENESIS_FORK_VERSION |-> "0x00000001",
  GENESIS_DELAY |-> "300", SECONDS_PER_SLOT |-> "6", SHARD_COMMITTEE_PERIOD |-> "64", ETH1_FOLLOW_DISTANCE |-> "16",
  DEPOSIT_CHAIN_ID |-> "5", DEPOSIT_NETWORK_ID |-> "5",
  DEPOSIT_CONTRACT_ADDRESS |-> "0x1234567890123456789012345678901234567890",
  MAX_COMMITTEES_PER_SLOT |-> "4", TARGET_COMMITTEE_SIZE |-> "4", SHUFFLE_ROUND_COUNT |-> "10",
  SAFE_SLOTS_TO_UPDATE_JUSTIFIED |-> "2", SLOTS_PER_EPOCH |-> "8", EPOCHS_PER_ETH1_VOTING_PERIOD |-> "4",
  SLOTS_PER_HISTORICAL_ROOT |-> "64", EPOCHS_PER_HISTORICAL_VECTOR |-> "64", EPOCHS_PER_SLASHINGS_VECTOR |-> "64",
  INACTIVITY_PENALTY_QUOTIENT |-> "33554432", MIN_SLASHING_PENALTY_QUOTIENT |-> "64",
  PROPORTIONAL_SLASHING_MULTIPLIER |-> "2" ]

Mainnet == [
  MIN_GENESIS_ACTIVE_VALIDATOR_COUNT |-> "16384", MIN_GENESIS_TIME |-> "1606824000", GENESIS_FORK_VERSION |-> "0x00000000",
  GENESIS_DELAY |-> "604800", SECONDS_PER_SLOT |-> "12", SHARD_COMMITTEE_PERIOD |-> "256", ETH1_FOLLOW_DISTANCE |-> "2048",
  DEPOSIT_CHAIN_ID |-> "1", DEPOSIT_NETWORK_ID |-> "1",
  DEPOSIT_CONTRACT_ADDRESS |-> "0x00000000219ab540356cbb839cbe05303d7705fa",
  MAX_COMMITTEES_PER_SLOT |-> "64", TARGET_COMMITTEE_SIZE |-> "128", SHUFFLE_ROUND_COUNT |-> "90",
  SAFE_SLOTS_TO_UPDATE_JUSTIFIED |-> "8", SLOTS_PER_EPOCH |-> "32", EPOCHS_PER_ETH1_VOTING_PERIOD |-> "64",
  SLOTS_PER_HISTORICAL_ROOT |-> "8192", EPOCHS_PER_HISTORICAL_VECTOR |-> "65536", EPOCHS_PER_SLASHINGS_VECTOR |-> "8192",
  INACTIVITY_PENALTY_QUOTIENT |-> "67108864", MIN_SLASHING_PENALTY_QUOTIENT |-> "128",
  PROPORTIONAL_SLASHING_MULTIPLIER |-> "1" ]

Names(preset) == DOMAIN Common \cup (IF preset = "minimal" THEN DOMAIN Minimal ELSE DOMAIN Mainnet)
Constant(preset, name) ==
    IF name \in DOMAIN Common THEN Common[name]
    ELSE IF preset = "minimal" THEN Minimal[name] ELSE Mainnet[name]
=============================================================================
