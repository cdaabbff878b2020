// Builds hash trees from a plan with every allocation flush against an inaccessible page,
// and reports their nodes and roots.
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <optional>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "ssz/hashtree.hpp"

// ---- allocations: while guarded, one mapping each, ending (or starting) at a page that faults
static bool guarded = false;
static char side = 'e';
static std::size_t slack = 0;   // bytes added to every allocation, for machines that read too far themselves
namespace {
struct Region {
    void* base;
    std::size_t bytes;
};
constexpr std::size_t P = 4096, MAXR = 4096;
struct Entry {
    void* user;
    Region r;
} table[MAXR];
void* get(std::size_t n) {
    if (!guarded) return std::malloc(n ? n : 1);
    n += slack;
    std::size_t len = (n + P - 1) / P * P + (n == 0 ? P : 0);
    auto* b = (unsigned char*)mmap(nullptr, len + 2 * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) throw std::bad_alloc();
    mprotect(b + P, len, PROT_READ | PROT_WRITE);
    std::memset(b + P, 0xd3, len);
    unsigned char* u = side == 'e' ? b + P + len - (n + 15) / 16 * 16 : b + P;
    for (auto& e : table)
        if (!e.user) {
            e.user = u;
            e.r = {b, len + 2 * P};
            return u;
        }
    std::abort();
}
void put(void* p) {
    if (!p) return;
    for (auto& e : table)
        if (e.user == p) {
            munmap(e.r.base, e.r.bytes);
            e.user = nullptr;
            return;
        }
    std::free(p);
}
}  // namespace
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }

using ssz::Chunk;
static std::vector<Chunk> pool;
static std::map<Chunk, int> ids;
static int intern(const Chunk& c) {
    auto [it, fresh] = ids.emplace(c, (int)ids.size() + 1);
    if (fresh) {
        printf("D ");
        for (auto b : c) printf("%02x", b);
        printf("\n");
    }
    return it->second;
}
static std::vector<std::uint8_t> unhex(const std::string& h) {
    std::vector<std::uint8_t> b;
    if (h != "-")
        for (std::size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((std::uint8_t)std::stoi(h.substr(i, 2), nullptr, 16));
    return b;
}

static std::optional<ssz::HashTree> before;
static std::vector<Chunk> before_nodes;

int main(int argc, char** argv) {
    if (const char* v = std::getenv("MAMMON_SLACK")) slack = (std::size_t)std::atoi(v);
    std::ifstream f(argv[1]);
    int from = argc > 2 ? atoi(argv[2]) : 0, index = 0;
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream in(line);
        std::string op, h;
        in >> op;
        if (op == "pool") {
            in >> h;
            auto b = unhex(h);
            Chunk c;
            std::copy(b.begin(), b.end(), c.begin());
            pool.push_back(c);
            continue;
        }
        int i = index++;
        if (i < from) continue;
        std::vector<Chunk> chunks;
        std::vector<std::uint8_t> bytes;
        std::uint64_t limit;
        std::vector<std::uint64_t> mix;
        std::size_t n = 0, s = 0, k = 0, z1 = 0, z2 = 0, m;
        if (op == "tree")
            in >> n >> s >> k >> z1 >> z2;
        else
            in >> h;
        in >> side >> limit >> m;
        mix.resize(m);
        for (auto& x : mix) in >> x;
        alarm(60);
        std::string exc;
        // snapshots: after construction, then after each length
        std::vector<std::vector<Chunk>> snaps;
        std::vector<Chunk> roots;
        // copies made along the way, and the tree of the line before, are to stay what they were
        std::vector<ssz::HashTree> copies;
        bool kept = true;
        auto still = [](const ssz::HashTree& t, const std::vector<Chunk>& nodes) {
            return t.hash_tree() == nodes && t.hash_tree_root() == nodes.back();
        };
        auto run = [&](ssz::HashTree&& t) {
            for (std::size_t j = 0;; ++j) {
                auto nodes = t.hash_tree();
                auto root = t.hash_tree_root();
                guarded = false;
                snaps.push_back(std::vector<Chunk>(nodes.begin(), nodes.end()));
                roots.push_back(root);
                guarded = true;
                if (j == mix.size()) break;
                copies.push_back(t);
                t.mix_in(mix[j]);
            }
            guarded = false;
            for (std::size_t j = 0; j < copies.size(); ++j) {
                kept = kept && still(copies[j], snaps[j]);
                ssz::HashTree other{std::vector<Chunk>(3)};
                other = copies[j];
                other.mix_in(~mix[j]);
                kept = kept && still(copies[j], snaps[j]) && other.hash_tree().size() == snaps[j].size() + 1;
            }
            kept = kept && still(t, snaps.back());
            if (before) kept = kept && still(*before, before_nodes);
            before.emplace(std::move(t));
            before_nodes = snaps.back();
            kept = kept && still(*before, before_nodes);
            guarded = true;
        };
        snaps.reserve(8);
        roots.reserve(8);
        copies.reserve(8);
        try {
            guarded = true;
            if (op == "tree") {
                std::vector<Chunk> c(n);
                for (std::size_t j = 0; j < n; ++j) {
                    bool z = z1 <= z2 ? z1 <= j && j < z2 : j < z2 || z1 <= j;
                    c[j] = pool[z ? 0 : (s + j * k) % pool.size()];
                }
                c.shrink_to_fit();
                if (limit == 0 && n % 2)
                    run(ssz::HashTree(c));
                else
                    run(ssz::HashTree(c, limit));
            } else {
                guarded = false;
                auto raw = unhex(h);
                guarded = true;
                std::vector<std::uint8_t> c(raw);
                if (limit == 0 && c.size() % 2)
                    run(ssz::HashTree(c));
                else
                    run(ssz::HashTree(c, limit));
            }
            guarded = false;
        } catch (const std::exception&) {
            guarded = false;
            exc = "std";
        } catch (...) {
            guarded = false;
            exc = "other";
        }
        std::string nodes = "[", rs = "[";
        for (std::size_t j = 0; j < snaps.size(); ++j) {
            nodes += j ? ",[" : "[";
            for (std::size_t q = 0; q < snaps[j].size(); ++q) nodes += (q ? "," : "") + std::to_string(intern(snaps[j][q]));
            nodes += "]";
            rs += (j ? "," : "") + std::to_string(intern(roots[j]));
        }
        printf("{\"i\":%d,\"exc\":\"%s\",\"kept\":%s,\"outs\":%s],\"out\":%s]}\n", i, exc.c_str(), kept ? "true" : "false",
               nodes.c_str(), rs.c_str());
        fflush(stdout);
    }
    return 0;
}
