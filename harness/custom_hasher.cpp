// The hasher of all trees, when the library leaves it to its user: the backend named in the environment.
#include <cstdlib>
#include <string>

#include "ssz/hashtree.hpp"

static ssz::Hasher named() {
    const char* v = std::getenv("MAMMON_BACKEND");
    const std::string b = v ? v : "";
    using I = ssz::Hasher::IMPL;
    if (b == "SHA") return ssz::Hasher{I::SHA};
    if (b == "AVX2") return ssz::Hasher{I::AVX2};
    if (b == "AVX") return ssz::Hasher{I::AVX};
    if (b == "SSE") return ssz::Hasher{I::SSE};
    return ssz::Hasher{};
}
namespace ssz {
const Hasher HashTree::hasher{named()};
}
