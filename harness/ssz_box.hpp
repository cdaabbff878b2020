// Type-erased SSZ objects, driven only through the library's public interface.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <vector>

#include "yaml-cpp/yaml.h"
#include "ssz_parts.hpp"

using bytes = std::vector<std::uint8_t>;
using chunk = std::array<std::uint8_t, 32>;
#ifdef __SANITIZE_ADDRESS__
constexpr bool at_end = true;   // a byte read too many is to be noticed
#else
constexpr bool at_end = false;
#endif

struct Box {
    virtual ~Box() = default;
    virtual bool load(const bytes &) = 0;
    virtual bool yload(const YAML::Node &) = 0;
    virtual bytes ser() const = 0;
    virtual chunk root() const = 0;
    virtual std::optional<std::vector<chunk>> tree() const = 0;
    virtual std::uint64_t size() const = 0;
    virtual YAML::Node yaml() const = 0;
    virtual bool eq(const Box &) const = 0;
    virtual bool ne(const Box &) const = 0;
    virtual std::unique_ptr<Box> copy() const = 0;
    virtual void assign(const Box &) = 0;
    virtual std::unique_ptr<Box> move_new() = 0;
    virtual void move_from(Box &) = 0;
    virtual void limit(std::uint64_t) = 0;
    virtual PartReply part(const PartRequest &) = 0;
    virtual std::optional<std::array<bool, 3>> validator(std::uint64_t) const { return std::nullopt; }
    virtual std::optional<bool> votes(const Box &) const { return std::nullopt; }
    virtual std::optional<bool> valid() const { return std::nullopt; }
};

// bytes handed to the decoder sit at the very end of their own heap block
template <class T, class Make>
struct BoxOf : Box {
    alignas(T) unsigned char mem[sizeof(T)];
    T *p;
    BoxOf(unsigned char fill, const Make &make) {
        std::memset(mem, fill, sizeof mem);
        asm volatile("" : : "r"(mem) : "memory");
        p = make(mem);
    }
    template <class U>
    BoxOf(std::in_place_t, U &&o) : p{new (mem) T(std::forward<U>(o))} {}
    ~BoxOf() override { p->~T(); }
    static T &of(Box &b) { return *static_cast<BoxOf &>(b).p; }
    static const T &of(const Box &b) { return *static_cast<const BoxOf &>(b).p; }

    bool load(const bytes &b) override {
        // in a store of exactly that size, or in the midst of other bytes
        static std::atomic<unsigned> count{0};
        const unsigned turn = at_end ? 0 : count++ % 4;
        const std::size_t before = turn ? 8 : 0, after = turn ? 72 : 0;
        static constexpr std::uint8_t fill[] = {0, 0, 1, 0xff};
        bytes copy;
        copy.reserve(before + b.size() + after);
        copy.assign(before, fill[turn]);
        copy.insert(copy.end(), b.begin(), b.end());
        copy.insert(copy.end(), after, fill[turn]);
        return p->deserialize(copy.cbegin() + before, copy.cend() - after);
    }
    bool yload(const YAML::Node &n) override { return p->decode(n); }
    const T &c() const { return *p; }
    bytes ser() const override { return c().serialize(); }
    chunk root() const override { return c().hash_tree_root(); }
    std::optional<std::vector<chunk>> tree() const override {
        if constexpr (requires { c().hash_tree(); }) return c().hash_tree();
        else return std::nullopt;
    }
    std::uint64_t size() const override { return c().get_ssz_size(); }
    YAML::Node yaml() const override { return c().encode(); }
    bool eq(const Box &o) const override { return c() == of(o); }
    bool ne(const Box &o) const override { return c() != of(o); }
    std::unique_ptr<Box> copy() const override { return std::make_unique<BoxOf>(std::in_place, c()); }
    void assign(const Box &o) override { *p = of(o); }
    std::unique_ptr<Box> move_new() override { return std::make_unique<BoxOf>(std::in_place, std::move(*p)); }
    void move_from(Box &o) override { *p = std::move(of(o)); }
    void limit(std::uint64_t m) override {
        if constexpr (requires { p->limit(std::size_t{}); }) p->limit(m);
    }
    PartReply part(const PartRequest &q) override {
        PartReply r;
        static std::atomic<unsigned> count{0};
        // every other time the object is observed while a reference to its part is held
        while_held = nullptr;
        if (count++ % 2)
            while_held = [this] {
                try {
                    (void)c().hash_tree_root();
                    (void)c().serialize();
                    (void)(c() == c());
                } catch (const std::exception &) {}
            };
        part_of(*p, q, 0, r);
        while_held = nullptr;
        return r;
    }
    std::optional<std::array<bool, 3>> validator(std::uint64_t e) const override {
        if constexpr (requires { c().is_eligible_for_activation_queue(); })
            return std::array<bool, 3>{c().is_active(e), c().is_slashable(e), c().is_eligible_for_activation_queue()};
        else return std::nullopt;
    }
    std::optional<bool> votes(const Box &o) const override {
        if constexpr (requires { { c().is_slashable(c()) } -> std::convertible_to<bool>; c().beacon_block_root; })
            return c().is_slashable(of(o));
        else return std::nullopt;
    }
    std::optional<bool> valid() const override;
};

bool indexed_valid(const void *);   // consensus TU: IndexedAttestation::is_valid with a default state

template <class T, class Make>
std::optional<bool> BoxOf<T, Make>::valid() const {
    if constexpr (requires { c().attesting_indices; }) return indexed_valid(&c());
    else return std::nullopt;
}

using Factory = std::function<std::unique_ptr<Box>(unsigned char fill)>;
std::map<std::string, Factory> &registry();

template <class T, class Make>
void add(const char *name, Make make) {
    registry()[name] = [make](unsigned char fill) -> std::unique_ptr<Box> {
        return std::make_unique<BoxOf<T, Make>>(fill, make);
    };
}
template <class T>
void add_default(const char *name) {
    add<T>(name, [](void *m) { return new (m) T; });
}
template <class T>
void add_limit(const char *name, std::uint64_t lim) {
    add<T>(name, [lim](void *m) { return lim ? new (m) T(lim) : new (m) T; });
}
