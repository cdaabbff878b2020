// Registers the types named in Phase0.tla. Compiled once per PART to spread the work.
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/eth1data.hpp"
#include "beacon-chain/validator.hpp"
#include "ssz_box.hpp"
using namespace eth;

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define C(T) add_default<T>(#T);
#define L(name, T, lim) add_limit<T>(#name, lim);
#define V(name, T) add_default<T>(#name);
template <class T> using LF = ListFixedSizedParts<T>;
template <class T> using LV = ListVariableSizedParts<T>;
template <class T, std::size_t N> using VF = VectorFixedSizedParts<T, N>;
using VS1 = VF<Slot, 1>; using VS3 = VF<Slot, 3>; using VS4 = VF<Slot, 4>; using VS5 = VF<Slot, 5>; using VS33 = VF<Slot, 33>;
using VB5 = VF<Boolean, 5>; using VB33 = VF<Boolean, 33>;
using VR1 = VF<Bytes32, 1>; using VR2 = VF<Bytes32, 2>; using VR3 = VF<Bytes32, 3>; using VR5 = VF<Bytes32, 5>;
using VP3 = VF<Bytes48, 3>; using VC1 = VF<Checkpoint, 1>; using VC3 = VF<Checkpoint, 3>; using VV53 = VF<VF<Slot, 5>, 3>;
constexpr std::uint64_t E(int e) { return std::uint64_t{1} << e; }

#if PART == 1
bool indexed_valid(const void *p) {
    static const auto state = std::make_unique<BeaconState>();
    return static_cast<const IndexedAttestation *>(p)->is_valid(*state);
}
#endif

void CAT(register_, PART)() {
#if PART == 1
    C(Fork) C(ForkData) C(Checkpoint) C(SigningData) C(AttestationData) C(IndexedAttestation) C(PendingAttestation)
    C(Attestation) C(DepositMessage) C(DepositData) C(Deposit) C(Eth1Data) C(Validator)
#elif PART == 2
    C(BeaconBlockHeader) C(SignedBeaconBlockHeader) C(ProposerSlashing) C(AttesterSlashing) C(VoluntaryExit)
    C(SignedVoluntaryExit) C(BeaconBlockBody) C(BeaconBlock) C(SignedBeaconBlock) C(BeaconState)
#elif PART == 3
    C(Slot) C(Boolean) C(Bytes1) C(Bytes4) C(Bytes20) C(Bytes32) C(Bytes48) C(Bytes96)
    V(Bytes33, Bytes<33>) V(Bytes64, Bytes<64>) V(Bytes160, Bytes<160>)
    V(Bitvector1, Bitvector<1>) V(Bitvector4, Bitvector<4>) V(Bitvector7, Bitvector<7>) V(Bitvector8, Bitvector<8>)
    V(Bitvector9, Bitvector<9>) V(Bitvector16, Bitvector<16>) V(Bitvector31, Bitvector<31>)
    V(Bitvector256, Bitvector<256>) V(Bitvector257, Bitvector<257>) V(Bitvector513, Bitvector<513>)
    L(Bitlist_0, Bitlist, 0) L(Bitlist_1, Bitlist, 1) L(Bitlist_5, Bitlist, 5) L(Bitlist_8, Bitlist, 8)
    L(Bitlist_9, Bitlist, 9) L(Bitlist_31, Bitlist, 31) L(Bitlist_256, Bitlist, 256) L(Bitlist_257, Bitlist, 257)
    L(Bitlist_600, Bitlist, 600) L(Bitlist_e11, Bitlist, E(11)) L(Bitlist_e40, Bitlist, E(40))
#elif PART == 4
    L(ListSlot_0, LF<Slot>, 0) L(ListSlot_1, LF<Slot>, 1) L(ListSlot_3, LF<Slot>, 3) L(ListSlot_4, LF<Slot>, 4)
    L(ListSlot_5, LF<Slot>, 5) L(ListSlot_9, LF<Slot>, 9) L(ListSlot_e10, LF<Slot>, E(10)) L(ListSlot_e40, LF<Slot>, E(40))
    L(ListBoolean_0, LF<Boolean>, 0) L(ListBoolean_33, LF<Boolean>, 33) L(ListBytes4_3, LF<Bytes4>, 3)
    L(ListBytes32_0, LF<Bytes32>, 0) L(ListBytes32_1, LF<Bytes32>, 1) L(ListBytes32_2, LF<Bytes32>, 2)
    L(ListBytes32_3, LF<Bytes32>, 3) L(ListBytes32_8, LF<Bytes32>, 8) L(ListBytes32_e24, LF<Bytes32>, E(24))
    L(ListCheckpoint_6, LF<Checkpoint>, 6) L(ListValidator_e40, LF<Validator>, E(40))
#elif PART == 5
    L(ListAttestation_0, LV<Attestation>, 0) L(ListAttestation_3, LV<Attestation>, 3)
    L(ListIndexedAttestation_4, LV<IndexedAttestation>, 4) L(ListBitlist_5, LV<Bitlist>, 5)
    L(ListListSlot_4, LV<LF<Slot>>, 4) L(ListAttesterSlashing_2, LV<AttesterSlashing>, 2)
    V(VectorSlot1, VS1) V(VectorSlot3, VS3) V(VectorSlot4, VS4) V(VectorSlot5, VS5) V(VectorSlot33, VS33)
    V(VectorBoolean5, VB5) V(VectorBoolean33, VB33)
    V(VectorBytes32_1, VR1) V(VectorBytes32_2, VR2) V(VectorBytes32_3, VR3) V(VectorBytes32_5, VR5)
    V(VectorBytes48_3, VP3) V(VectorCheckpoint1, VC1) V(VectorCheckpoint3, VC3) V(VectorVectorSlot5_3, VV53)
#endif
}
