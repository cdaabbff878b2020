// Prints the constants named in consts.inc (made from Presets.tla).
#include <cstdio>
#include <string>
#include <type_traits>

#include "config.hpp"
#include "config/constants.hpp"
#include "ssz/ssz.hpp"

template <class T>
static void emit(const char *name, const T &v) {
    std::string s;
    if constexpr (requires { v.to_array(); }) {
        s = "0x";
        for (unsigned b : v.to_array()) { char t[3]; std::snprintf(t, sizeof t, "%02x", b); s += t; }
    } else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) s = std::to_string((long long)v);
    else s = std::to_string((unsigned long long)v);
    std::printf("%s %s\n", name, s.c_str());
}
int main() {
#define K(name) emit(#name, constants::name);
#include "consts.inc"
    return 0;
}
