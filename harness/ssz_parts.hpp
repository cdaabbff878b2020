// Reaches the parts of an object through the public interface alone: accessors, public fields, iterators.
#pragma once
#include <concepts>
#include <cstdint>
#include <functional>
#include <iterator>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
#include "common/boolean.hpp"
#include "common/slot.hpp"

struct PartRequest {
    std::vector<std::string> path;   // field names, or element numbers from 0
    char what;                       // g: read, s: write, i: iterate, b: bits, a: append through data(), n: as a number, w: write a number
    std::vector<std::uint8_t> in;
};
struct PartReply {
    bool there = false, taken = false;
    std::vector<std::uint8_t> ser;
    std::vector<std::vector<std::uint8_t>> items, again;
    std::uint64_t size = 0;
    std::string printed, text;
    std::vector<std::uint8_t> wide, made;   // a number as bytes, and the object made from it or from bits
};
// what happens between reaching a part and writing to it
inline thread_local std::function<void()> while_held;

#define PART_NAMES(X) \
    X(previous_version) X(current_version) X(epoch) X(genesis_validators_root) X(root) X(object_root) X(domain) \
    X(slot) X(index) X(beacon_block_root) X(source) X(target) X(attesting_indices) X(data) X(signature) \
    X(aggregation_bits) X(inclusion_delay) X(proposer_index) X(pubkey) X(withdrawal_credentials) X(amount) X(proof) \
    X(deposit_root) X(deposit_count) X(block_hash) X(parent_root) X(state_root) X(body_root) X(message) \
    X(signed_header_1) X(signed_header_2) X(attestation_1) X(attestation_2) X(validator_index) \
    X(randao_reveal) X(eth1_data) X(graffiti) X(proposer_slashings) X(attester_slashings) X(attestations) X(deposits) \
    X(voluntary_exits) X(body) X(genesis_time) X(fork) X(latest_block_header) X(block_roots) X(state_roots) \
    X(historical_roots) X(eth1_data_votes) X(eth1_deposit_index) X(validators) X(balances) X(slashings) X(randao_mixes) \
    X(previous_epoch_attestations) X(current_epoch_attestations) X(justification_bits) X(previous_justified_checkpoint) \
    X(current_justified_checkpoint) X(finalized_checkpoint) X(effective_balance) X(slashed) \
    X(activation_eligibility_epoch) X(activation_epoch) X(exit_epoch) X(withdrawable_epoch)

template <class T>
concept Composed = requires(const T &x) { { x.serialize() } -> std::convertible_to<std::vector<std::uint8_t>>; };
template <class T>
concept Iterates = Composed<T> && requires(const T &x) { { *x.cbegin() } -> Composed; x.size(); };

inline std::uint64_t number_in(const PartRequest &q) {
    std::uint64_t n = 0;
    for (std::size_t i = q.in.size(); i-- > 0;) n = n << 8 | q.in[i];
    return n;
}
inline void number_here(const eth::Slot &x, const PartRequest &q, PartReply &r) {
    if (q.what != 'n') return;
    r.there = true;
    const std::uint64_t n = x;
    r.text = std::to_string(n);
    r.wide = static_cast<eth::Bytes8>(x).serialize();
    r.made = eth::Slot(n).serialize();
}
inline void number_here(const eth::Boolean &x, const PartRequest &q, PartReply &r) {
    if (q.what != 'n') return;
    r.there = true;
    const bool n = x;
    r.text = n ? "1" : "0";
    r.wide = static_cast<eth::Bytes1>(x).serialize();
    r.made = eth::Boolean(n).serialize();
}
inline void number_there(eth::Slot &x, const PartRequest &q, PartReply &r) {
    if (q.what != 'w') return;
    r.there = r.taken = true;
    std::uint64_t &n = static_cast<std::uint64_t &>(x);
    if (while_held) while_held();
    if (q.in[0] & 1) x = number_in(q);
    else n = number_in(q);
}
inline void number_there(eth::Boolean &x, const PartRequest &q, PartReply &r) {
    if (q.what != 'w') return;
    r.there = r.taken = true;
    bool &n = static_cast<bool &>(x);
    if (while_held) while_held();
    n = number_in(q);
}

template <unsigned N>
eth::Bitvector<N> made_of(const eth::Bitvector<N> &, const std::string &printed, const std::string &) {
    std::array<bool, N> bits{};
    for (std::size_t i = 0; i < N && i < printed.size(); ++i) bits[i] = printed[i] == '1';
    return eth::Bitvector<N>(bits);
}
inline eth::Bitlist made_of(const eth::Bitlist &, const std::string &, const std::string &text) {
    eth::Bitlist x;
    x.from_hexstring(text);
    return x;
}

template <class T>
void part_here(T &x, const PartRequest &q, PartReply &r) {
    const T &c = x;
    if (q.what == 'g') { r.there = true; r.ser = c.serialize(); }
    if constexpr (!std::is_const_v<T>) {
        if (q.what == 's') {
            r.there = true;
            if (while_held) while_held();
            r.taken = x.deserialize(q.in.cbegin(), q.in.cend());
        }
        if constexpr (Iterates<T> && requires { x.data().push_back(*x.begin()); })
            if (q.what == 'a') {
                auto e = typename std::decay_t<decltype(x.data())>::value_type{};
                r.there = true;
                r.taken = e.deserialize(q.in.cbegin(), q.in.cend());
                auto &store = x.data();
                if (while_held) while_held();
                if (r.taken) store.push_back(e);
            }
    }
    if constexpr (std::is_same_v<std::remove_const_t<T>, eth::Slot> || std::is_same_v<std::remove_const_t<T>, eth::Boolean>) {
        number_here(c, q, r);
        if constexpr (!std::is_const_v<T>) number_there(x, q, r);
    }
    if constexpr (Iterates<T>)
        if (q.what == 'i') {
            r.there = true;
            r.size = c.size();
            for (auto it = c.cbegin(); it != c.cend(); ++it) r.items.push_back(it->serialize());
            if constexpr (std::is_const_v<T>) r.again = r.items;
            else for (auto &e : x) r.again.push_back(e.serialize());
        }
    if constexpr (requires(std::ostream &os, std::remove_const_t<T> &y) { os << c; c.to_string(); y.from_hexstring(""); })
        if (q.what == 'b') {
            std::ostringstream os;
            os << c;
            r.there = true;
            r.printed = os.str();
            r.text = c.to_string();
            if constexpr (requires { c.size(); }) r.size = c.size();
            else r.size = r.printed.size();
            r.made = made_of(c, r.printed, r.text).serialize();
        }
}

template <class T>
void part_of(T &x, const PartRequest &q, std::size_t i, PartReply &r) {
    if (i == q.path.size()) return part_here(x, q, r);
    const std::string &s = q.path[i];
    if (s[0] >= '0' && s[0] <= '9') {
        if constexpr (Iterates<T>) {
            auto k = static_cast<std::ptrdiff_t>(std::stoull(s));
            if constexpr (std::is_const_v<T>) {
                if (k < std::distance(x.cbegin(), x.cend())) part_of(*std::next(x.cbegin(), k), q, i + 1, r);
            } else {
                if (k < std::distance(x.begin(), x.end())) part_of(*std::next(x.begin(), k), q, i + 1, r);
            }
        }
        return;
    }
#define X(name)                                                                               \
    if constexpr (requires { { x.name() } -> Composed; }) {                                   \
        if (s == #name) { auto &&y = std::as_const(x).name(); return part_of(y, q, i + 1, r); } \
    } else if constexpr (requires { { x.name } -> Composed; }) {                              \
        if (s == #name) return part_of(x.name, q, i + 1, r);                                  \
    }
    PART_NAMES(X)
#undef X
}
