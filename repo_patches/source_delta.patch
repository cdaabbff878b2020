From 0d483f7f615902c27e298de2e573d739eb79c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 01/16] fix: keep the two-block SHA-NI state on the stack

The two-block path kept its saved state in shared .data slots, so two threads
hashing at once overwrote each other's state and produced wrong digests.
---
 ssz/sha256_shani.asm | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/ssz/sha256_shani.asm b/ssz/sha256_shani.asm
index 43265de..60bcf35 100644
--- a/ssz/sha256_shani.asm
+++ b/ssz/sha256_shani.asm
@@ -70,13 +70,14 @@
 %define SHA256CONSTANTS	rax
 
 
-%ifdef WINABI
 %define RSPSAVE		r9
 
 struc frame
+%ifdef WINABI
 .xmm_save:	resdq	5
-endstruc
 %endif
+.state_save:	resdq	4
+endstruc
 
 %define MSG		xmm0
 %define STATE0		xmm1
@@ -113,11 +114,11 @@ section .text
 global sha256_shani:function
 align 32
 sha256_shani:
-%ifdef WINABI
 	mov		RSPSAVE, rsp
 	sub		rsp, frame_size
 	and		rsp, ~0xF
 
+%ifdef WINABI
 	movdqa		[rsp + frame.xmm_save + 0*16], xmm6
 	movdqa		[rsp + frame.xmm_save + 1*16], xmm7
 	movdqa		[rsp + frame.xmm_save + 2*16], xmm8
@@ -477,10 +478,10 @@ sha256_shani:
         ;; Rounds with PADDING
         
 	;; Save hash values for addition after rounds
-	movdqa		[ABEF_SAVEa wrt rip], STATE0
-	movdqa		[CDGH_SAVEa wrt rip], STATE1
-	movdqa		[ABEF_SAVEb wrt rip], STATE0b
-	movdqa		[CDGH_SAVEb wrt rip], STATE1b
+	movdqa		[rsp + frame.state_save + 0*16], STATE0
+	movdqa		[rsp + frame.state_save + 1*16], STATE1
+	movdqa		[rsp + frame.state_save + 2*16], STATE0b
+	movdqa		[rsp + frame.state_save + 3*16], STATE1b
 
 	;; Rounds 0-3
 	movdqa		MSG, [SHA256PADDING + 0*16]
@@ -608,10 +609,10 @@ sha256_shani:
 		sha256rnds2	STATE0, STATE1
 		sha256rnds2	STATE0b, STATE1b
 
-	paddd		STATE0, [ABEF_SAVEa wrt rip]
-	paddd		STATE1, [CDGH_SAVEa wrt rip]
-	paddd           STATE0b, [ABEF_SAVEb wrt rip]
-	paddd		STATE1b, [CDGH_SAVEb wrt rip]
+	paddd		STATE0, [rsp + frame.state_save + 0*16]
+	paddd		STATE1, [rsp + frame.state_save + 1*16]
+	paddd           STATE0b, [rsp + frame.state_save + 2*16]
+	paddd		STATE1b, [rsp + frame.state_save + 3*16]
 
 
 	;; Write hash values back in the correct order
@@ -965,8 +966,8 @@ sha256_shani:
 	movdqa		xmm8,  [rsp + frame.xmm_save + 2*16]
 	movdqa		xmm9,  [rsp + frame.xmm_save + 3*16]
 	movdqa		xmm10, [rsp + frame.xmm_save + 4*16]
-	mov		rsp, RSPSAVE
 %endif
+	mov		rsp, RSPSAVE
 
 	ret	
 	
@@ -1013,13 +1014,3 @@ PADDING:
         dd      0x521afaca, 0x31338431, 0x6ed41a95, 0x6d437890
         dd      0xc39c91f2, 0x9eccabbd, 0xb5c9a0e6, 0x532fb63c
         dd      0xd2c741c6, 0x7237ea3, 0xa4954b68, 0x4c191d76
-
-section .data
-
-align 64
-
-ABEF_SAVEa:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEa:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-ABEF_SAVEb:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEb:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-
-- 
2.43.0


From 0355e5da9580dca91c3b55fb52f447b5a74deb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 02/16] fix: add the missing bytes_to_string helper and its
 sibling's includes

common/bytes.hpp includes helpers/bytes_to_string.hpp, which is not in the
tree, so no translation unit of the ssz library compiles.
---
 helpers/bytes_to_int.hpp    |  2 ++
 helpers/bytes_to_string.hpp | 40 +++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)
 create mode 100644 helpers/bytes_to_string.hpp

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index b3ed1d3..846b217 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -23,7 +23,9 @@
 #include <array>
 #include <concepts>
 #include <cstddef>
+#include <cstdint>
 #include <string>
+#include <string_view>
 
 namespace {
 struct Table {
diff --git a/helpers/bytes_to_string.hpp b/helpers/bytes_to_string.hpp
new file mode 100644
index 0000000..e377bd1
--- /dev/null
+++ b/helpers/bytes_to_string.hpp
@@ -0,0 +1,40 @@
+/*  bytes_to_string.hpp
+ *
+ *  This file is part of Mammon.
+ *  mammon is a greedy and selfish ETH consensus client.
+ *
+ *  Copyright (c) 2021 - Reimundo Heluani (potuz) potuz@potuz.net
+ *
+ *  This program is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  This program is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#pragma once
+#include <cstdint>
+#include <string>
+
+namespace helpers {
+
+// 0x-prefixed lowercase hex, two digits per byte, first byte first
+template <typename Range>
+std::string bytes_to_string(const Range &bytes) {
+    constexpr char digits[] = "0123456789abcdef";
+    std::string ret{"0x"};
+    for (const std::uint8_t byte : bytes) {
+        ret += digits[byte >> 4];
+        ret += digits[byte & 0xf];
+    }
+    return ret;
+}
+
+}  // namespace helpers
-- 
2.43.0


From cf58a894ff39bd130e5226e8465ee9bf4d226d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 03/16] fix: define slashing containers before use and
 HashTree::hasher with its declared type

std::vector of an incomplete type is rejected by clang, and gcc rejects the
conflicting 'const auto' definition, so neither compiler builds the ssz library.
---
 beacon-chain/beacon_block.hpp | 111 +++++++++++++++++-----------------
 ssz/hashtree.cpp              |   2 +-
 2 files changed, 55 insertions(+), 58 deletions(-)

diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index bdc4d32..c9e3de2 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -109,8 +109,60 @@ struct SignedVoluntaryExit : public ssz::Container {
     }
 };
 
-struct ProposerSlashing;
-struct AttesterSlashing;
+struct SignedBeaconBlockHeader : public ssz::Container {
+    BeaconBlockHeader message;
+    BLSSignature signature;
+
+    static constexpr std::size_t ssz_size = 208;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
+    BytesVector serialize() const override { return serialize_({&message, &signature}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&message, &signature});
+    }
+
+    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"message", &message}, {"signature", &signature}});
+    }
+};
+
+struct ProposerSlashing : public ssz::Container {
+    SignedBeaconBlockHeader signed_header_1, signed_header_2;
+
+    static constexpr std::size_t ssz_size = 416;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
+    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
+    }
+
+    YAML::Node encode() const override {
+        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+};
+
+struct AttesterSlashing : public ssz::Container {
+    IndexedAttestation attestation_1, attestation_2;
+
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
+    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&attestation_1, &attestation_2});
+    }
+    YAML::Node encode() const override {
+        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+};
 
 class BeaconBlockBody : public ssz::Container {
    private:
@@ -229,61 +281,6 @@ class BeaconBlock : public ssz::Container {
     }
 };
 
-struct SignedBeaconBlockHeader : public ssz::Container {
-    BeaconBlockHeader message;
-    BLSSignature signature;
-
-    static constexpr std::size_t ssz_size = 208;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
-    BytesVector serialize() const override { return serialize_({&message, &signature}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&message, &signature});
-    }
-
-    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"message", &message}, {"signature", &signature}});
-    }
-};
-
-struct ProposerSlashing : public ssz::Container {
-    SignedBeaconBlockHeader signed_header_1, signed_header_2;
-
-    static constexpr std::size_t ssz_size = 416;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
-    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
-    }
-
-    YAML::Node encode() const override {
-        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-};
-
-struct AttesterSlashing : public ssz::Container {
-    IndexedAttestation attestation_1, attestation_2;
-
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
-    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&attestation_1, &attestation_2});
-    }
-    YAML::Node encode() const override {
-        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-};
-
 struct SignedBeaconBlock : public ssz::Container {
     BeaconBlock message;
     BLSSignature signature;
diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8fa375d..43f7b1a 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -103,7 +103,7 @@ void merkleize(const std::vector<Chunk>& vec, std::vector<Chunk>& hash_tree, std
 
 namespace ssz {
 #ifndef CUSTOM_HASHER
-const auto HashTree::hasher = Hasher{};
+const Hasher HashTree::hasher{};
 #endif
 HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
     // return early if only one chunk:
-- 
2.43.0


From 71b55b8469960593a825ac0421e6e2d47fedd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 04/16] fix: print bitlists and bitvectors as hex digits

to_string streamed each byte as a character, so the text (and the YAML) of a
bitfield held raw bytes; it also touched the flags of std::cout.
---
 common/bitlist.cpp   | 13 +++----------
 common/bitvector.hpp | 10 +---------
 2 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index acc70d0..5b362ad 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -23,12 +23,11 @@
 
 #include <bit>
 #include <cstdint>
-#include <iomanip>
-#include <iostream>
-#include <sstream>
+#include <stdexcept>
 
 #include "config.hpp"
 #include "helpers/bytes_to_int.hpp"
+#include "helpers/bytes_to_string.hpp"
 #include "ssz/hashtree.hpp"
 
 namespace eth {
@@ -78,13 +77,7 @@ void Bitlist::from_hexstring(const std::string& str) {
 }
 
 std::string Bitlist::to_string() const {
-    std::stringstream os;
-    std::ios_base::fmtflags save = std::cout.flags();
-    auto serial = this->serialize();
-    os << "0x";
-    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << *i;
-    std::cout.flags(save);
-    return os.str();
+    return helpers::bytes_to_string(this->serialize());
 };
 
 YAML::Node Bitlist::encode() const {
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 276045f..5f24ac0 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -23,7 +23,6 @@
 #pragma once
 #include <array>
 #include <cassert>
-#include <iomanip>
 #include <iostream>
 
 #include "common/bytes.hpp"
@@ -61,14 +60,7 @@ class Bitvector : public ssz::Container {
     }
 
     std::string to_string() const {
-        std::stringstream os;
-        std::ios_base::fmtflags save = std::cout.flags();
-        auto serial = this->serialize();
-        os << "0x";
-        for (auto i = serial.cbegin(); i != serial.cend(); ++i)
-            os << std::setfill('0') << std::setw(2) << std::hex << *i;
-        std::cout.flags(save);
-        return os.str();
+        return helpers::bytes_to_string(this->serialize());
     };
 
     friend std::ostream &operator<<(std::ostream &os, const Bitvector<N> &m_bits) {
-- 
2.43.0


From 78adf6a80206d08678f1a4f1355d33612d132740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 05/16] fix: reject bitlists without a delimiter bit

An empty range was read before its beginning, and a zero last byte, which holds
no delimiter, was accepted; from_hexstring ignored the outcome.
---
 common/bitlist.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 5b362ad..61b90f4 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -49,8 +49,10 @@ std::vector<std::uint8_t> Bitlist::serialize() const {
     return ret;
 }
 bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
+    if (it == end) return false;
     auto last = end;
     --last;
+    if (*last == 0) return false;  // no delimiter bit
     int msb = std::countl_zero(*last);
     m_arr.clear();
 
@@ -73,7 +75,7 @@ void Bitlist::from_hexstring(const std::string& str) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-    deserialize(hex.begin(), hex.end());
+    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string is not a valid bitlist");
 }
 
 std::string Bitlist::to_string() const {
-- 
2.43.0


From 7d46af2336c13c65c4c4205956343c851035cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 06/16] fix: initialise bitvectors and reject set padding bits

A default constructed Bitvector held indeterminate bits, and bits beyond its
length in the last byte (or a hex string of another length) were ignored.
---
 common/bitvector.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 5f24ac0..a5e9069 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -34,7 +34,7 @@ namespace eth {
 template <unsigned N>
 class Bitvector : public ssz::Container {
    private:
-    std::array<bool, N> m_arr;
+    std::array<bool, N> m_arr{};
 
    public:
     static constexpr std::size_t ssz_size = (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE;
@@ -53,10 +53,7 @@ class Bitvector : public ssz::Container {
             buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
             hex.push_back(buffer);
         }
-        m_arr.fill(0);
-        for (int i = 0; i < hex.size(); ++i)
-            for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * i + j < N; ++j)
-                m_arr[constants::BITS_PER_BYTE * i + j] = ((hex[i] >> j) & 1);
+        if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string is not a valid bitvector");
     }
 
     std::string to_string() const {
@@ -74,6 +71,7 @@ class Bitvector : public ssz::Container {
     }
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         if (std::distance(it, end) != (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE) return false;
+        if (N % constants::BITS_PER_BYTE && *std::prev(end) >> (N % constants::BITS_PER_BYTE)) return false;
         for (auto i = it; i != end; ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * std::distance(it, i) + j < N;
                  ++j)
-- 
2.43.0


From 723f349abd53d501f57df268a0125bb6886f5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 07/16] fix: reject bytes after the last field of a fixed-size
 container

---
 ssz/ssz_container.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ssz/ssz_container.cpp b/ssz/ssz_container.cpp
index 13207eb..5164755 100644
--- a/ssz/ssz_container.cpp
+++ b/ssz/ssz_container.cpp
@@ -100,9 +100,8 @@ bool Container::deserialize_(SSZIterator it, SSZIterator end, const std::vector<
             it += constants::BYTES_PER_LENGTH_OFFSET;
         }
     }
-    if (last_offset)
-        if (!last_variable_part->deserialize(begin + last_offset, end)) return false;
-    return true;
+    if (last_offset) return last_variable_part->deserialize(begin + last_offset, end);
+    return it == end;
 }
 
 std::vector<Chunk> Container::hash_tree() const {
-- 
2.43.0


From edb3cf9d2fa626640947b8727ac94fe578951b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 08/16] fix: reject lists longer than their limit

A list or bitlist over its limit was accepted by the decoders, and computing
its root then wrote past the end of the tree's buffer.
---
 common/bitlist.cpp    |  2 +-
 common/containers.hpp | 10 ++++++++--
 ssz/hashtree.cpp      |  1 +
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 61b90f4..5da03bd 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -60,7 +60,7 @@ bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
         for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);
 
     for (auto i = 0; i < constants::BITS_PER_BYTE - 1 - msb; ++i) m_arr.push_back((*last >> i) & 1);
-    return true;
+    return !limit_ || m_arr.size() <= limit_;
 }
 
 // Does not check for errors, assumes strings is 0x valid hex bytes! In
diff --git a/common/containers.hpp b/common/containers.hpp
index e044eea..54d4a7a 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -145,6 +145,7 @@ class ListFixedSizedParts : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         m_arr.clear();
         if (std::distance(it, end) % T::ssz_size) return false;
+        if (limit_ && std::distance(it, end) / T::ssz_size > limit_) return false;
 
         for (auto i = it; i != end; i += T::ssz_size) {
             T obj;
@@ -154,7 +155,9 @@ class ListFixedSizedParts : public ssz::Container {
         return true;
     }
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        return YAML::convert<std::vector<T>>::decode(node, m_arr) && (!limit_ || m_arr.size() <= limit_);
+    }
 };
 
 template <class T>
@@ -207,6 +210,7 @@ class ListVariableSizedParts : public ssz::Container {
         auto first_offset = helpers::to_integer_little_endian<std::uint32_t>(&*it);
         if (first_offset < constants::BYTES_PER_LENGTH_OFFSET) return false;
         if (std::distance(start, end) < first_offset) return false;
+        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;
         auto last_offset = first_offset;
         it += constants::BYTES_PER_LENGTH_OFFSET;
 
@@ -229,7 +233,9 @@ class ListVariableSizedParts : public ssz::Container {
     }
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        return YAML::convert<std::vector<T>>::decode(node, m_arr) && (!limit_ || m_arr.size() <= limit_);
+    }
 };
 
 struct Fork : public ssz::Container {
diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 43f7b1a..ce1f3a3 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -111,6 +111,7 @@ HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
         hash_tree_ = chunks;
     else {
         if (chunks.empty()) throw std::out_of_range("empty chunks is not allowed");
+        if (limit != 0 && chunks.size() > limit) throw std::out_of_range("more chunks than the limit");
         auto effective_depth = helpers::log2ceil(chunks.size());
         auto depth = (limit == 0) ? effective_depth : helpers::log2ceil(limit);
         auto cache_size = depth - effective_depth + std::bit_ceil(chunks.size()) - 1;
-- 
2.43.0


From 8d302d40e4135b5611f1fa47e7d766291f062ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 09/16] fix: compare the contents of containers

Every container without an operator== of its own inherited one that always
returns true: unequal lists, checkpoints or blocks compared equal, and
AttestationData::is_slashable never reported a double vote.
---
 beacon-chain/attestation.hpp  | 8 ++++++--
 beacon-chain/beacon_block.hpp | 7 +++++++
 beacon-chain/deposits.hpp     | 5 +++++
 beacon-chain/eth1data.hpp     | 2 ++
 beacon-chain/validator.hpp    | 1 +
 common/containers.hpp         | 7 +++++++
 6 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/beacon-chain/attestation.hpp b/beacon-chain/attestation.hpp
index b31950b..be14002 100644
--- a/beacon-chain/attestation.hpp
+++ b/beacon-chain/attestation.hpp
@@ -43,6 +43,7 @@ struct AttestationData : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_slashable(const AttestationData&) const;
+    bool operator==(const AttestationData &) const = default;
 
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
@@ -56,7 +57,8 @@ struct IndexedAttestation : public ssz::Container {
     std::vector<ssz::Chunk> hash_tree() const override;
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
-    bool is_valid(const eth::BeaconState& state) const; 
+    bool is_valid(const eth::BeaconState& state) const;
+    bool operator==(const IndexedAttestation &) const = default;
 
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
@@ -71,6 +73,7 @@ struct PendingAttestation : public ssz::Container {
     std::vector<ssz::Chunk> hash_tree() const override;
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
+    bool operator==(const PendingAttestation &) const = default;
 
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
@@ -84,7 +87,8 @@ struct Attestation : public ssz::Container {
     std::vector<ssz::Chunk> hash_tree() const override;
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
-    
+    bool operator==(const Attestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index c9e3de2..0f20aa7 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -120,6 +120,7 @@ struct SignedBeaconBlockHeader : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&message, &signature});
     }
+    bool operator==(const SignedBeaconBlockHeader &) const = default;
 
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
@@ -138,6 +139,7 @@ struct ProposerSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&signed_header_1, &signed_header_2});
     }
+    bool operator==(const ProposerSlashing &) const = default;
 
     YAML::Node encode() const override {
         return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
@@ -155,6 +157,8 @@ struct AttesterSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&attestation_1, &attestation_2});
     }
+    bool operator==(const AttesterSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
     }
@@ -210,6 +214,7 @@ class BeaconBlockBody : public ssz::Container {
                             {&randao_reveal_, &eth1_data_, &graffiti_, &proposer_slashings_, &attester_slashings_,
                              &attestations_, &deposits_, &voluntary_exits_});
     }
+    bool operator==(const BeaconBlockBody &) const = default;
 
     YAML::Node encode() const override {
         return encode_({{"randao_reveal", &randao_reveal_},
@@ -263,6 +268,7 @@ class BeaconBlock : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&slot_, &proposer_index_, &parent_root_, &state_root_, &body_});
     }
+    bool operator==(const BeaconBlock &) const = default;
 
     YAML::Node encode() const override {
         return encode_({{"slot", &slot_},
@@ -290,6 +296,7 @@ struct SignedBeaconBlock : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&message, &signature});
     }
+    bool operator==(const SignedBeaconBlock &) const = default;
 
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
diff --git a/beacon-chain/deposits.hpp b/beacon-chain/deposits.hpp
index 5df397a..32d6ad5 100644
--- a/beacon-chain/deposits.hpp
+++ b/beacon-chain/deposits.hpp
@@ -43,6 +43,8 @@ struct DepositMessage : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount});
     }
+    bool operator==(const DepositMessage &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey}, {"withdrawal_credentials", &withdrawal_credentials}, {"amount", &amount}});
     }
@@ -71,6 +73,8 @@ struct DepositData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount, &signature});
     }
+    bool operator==(const DepositData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey},
                         {"withdrawal_credentials", &withdrawal_credentials},
@@ -97,6 +101,7 @@ struct Deposit : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&proof, &data});
     }
+    bool operator==(const Deposit &) const = default;
 
     YAML::Node encode() const override { return encode_({{"proof", &proof}, {"data", &data}}); }
 
diff --git a/beacon-chain/eth1data.hpp b/beacon-chain/eth1data.hpp
index 24503ae..eff7de4 100644
--- a/beacon-chain/eth1data.hpp
+++ b/beacon-chain/eth1data.hpp
@@ -38,6 +38,8 @@ struct Eth1Data : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&deposit_root, &deposit_count, &block_hash});
     }
+    bool operator==(const Eth1Data &) const = default;
+
     YAML::Node encode() const override {
         return encode_(
             {{"deposit_root", &deposit_root}, {"deposit_count", &deposit_count}, {"block_hash", &block_hash}});
diff --git a/beacon-chain/validator.hpp b/beacon-chain/validator.hpp
index 0b202f2..1d0c532 100644
--- a/beacon-chain/validator.hpp
+++ b/beacon-chain/validator.hpp
@@ -45,6 +45,7 @@ class Validator : public ssz::Container {
     bool is_active(const Epoch& epoch) const noexcept;
     bool is_eligible_for_activation_queue() const noexcept;
     bool is_slashable(const Epoch& epoch) const noexcept;
+    bool operator==(const Validator &) const = default;
 
     YAML::Node encode() const override; 
     bool decode(const YAML::Node &node) override;
diff --git a/common/containers.hpp b/common/containers.hpp
index 54d4a7a..de018f8 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -88,6 +88,7 @@ class VectorFixedSizedParts : public ssz::Container {
             if (!m_arr[i].deserialize(it + i * T::ssz_size, it + (i + 1) * T::ssz_size)) return false;
         return true;
     }
+    bool operator==(const VectorFixedSizedParts &) const = default;
 
     YAML::Node encode() const override { return YAML::convert<std::array<T, N>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::array<T, N>>::decode(node, m_arr); }
@@ -154,6 +155,8 @@ class ListFixedSizedParts : public ssz::Container {
         }
         return true;
     }
+    bool operator==(const ListFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override {
         return YAML::convert<std::vector<T>>::decode(node, m_arr) && (!limit_ || m_arr.size() <= limit_);
@@ -231,6 +234,7 @@ class ListVariableSizedParts : public ssz::Container {
         m_arr.push_back(obj);
         return true;
     }
+    bool operator==(const ListVariableSizedParts &) const = default;
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override {
@@ -284,6 +288,7 @@ struct ForkData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&current_version, &genesis_validators_root});
     }
+    bool operator==(const ForkData &) const = default;
 
     YAML::Node encode() const override {
         return encode_({{"current_version", &current_version}, {"genesis_validators_root", &genesis_validators_root}});
@@ -306,6 +311,7 @@ struct Checkpoint : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&epoch, &root});
     }
+    bool operator==(const Checkpoint &) const = default;
 
     YAML::Node encode() const override { return encode_({{"epoch", &epoch}, {"root", &root}}); }
 
@@ -324,6 +330,7 @@ struct SigningData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&object_root, &domain});
     }
+    bool operator==(const SigningData &) const = default;
 
     YAML::Node encode() const override { return encode_({{"object_root", &object_root}, {"domain", &domain}}); }
 
-- 
2.43.0


From 625a151d86d0e98a3272502fc24a68354d2cab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 10/16] fix: reject characters that are not hex digits

hextoint indexed its table with a negative number for characters above 0x7f and
took any other character for the digit 0.
---
 helpers/bytes_to_int.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 846b217..6011971 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -24,6 +24,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstdint>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -66,7 +67,12 @@ requires(std::unsigned_integral<T>) T to_integer_little_endian(const std::uint8_
     return *ptr;
 }
 
-constexpr int hextoint(char number) { return table[(std::size_t)number]; }
+constexpr int hextoint(char number) {
+    const bool is_digit = (number >= '0' && number <= '9') || (number >= 'a' && number <= 'f') ||
+                          (number >= 'A' && number <= 'F');
+    if (!is_digit) throw std::invalid_argument("not a hexadecimal digit");
+    return table[(std::size_t)number];
+}
 
 constexpr int strhex2int(std::string_view const &str) {
     int ret = 0;
-- 
2.43.0


From 8250dc045b05c01c17bc8cef43c43b9812c71b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 11/16] fix: minimal preset's genesis fork version is
 0x00000001

The integer constructor is little-endian, which gave 0x01000000.
---
 config/minimal.hpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/minimal.hpp.in b/config/minimal.hpp.in
index 613fcdd..32abd76 100644
--- a/config/minimal.hpp.in
+++ b/config/minimal.hpp.in
@@ -30,7 +30,7 @@ namespace constants {
 
 constexpr std::uint64_t MIN_GENESIS_ACTIVE_VALIDATOR_COUNT = 64;
 constexpr std::uint64_t MIN_GENESIS_TIME = 1578009600;
-constexpr const eth::Version GENESIS_FORK_VERSION{0x00000001};
+constexpr const eth::Version GENESIS_FORK_VERSION{"0x00000001"};
 constexpr std::uint64_t GENESIS_DELAY = 300;
 
 // ALTAIR_FORK_VERSION: 0x01000001
-- 
2.43.0


From 5b59fd107d85c5206f133462f666af8b022ef9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 12/16] fix: merkleise sequences of booleans as basic values

SSZ packs booleans into chunks; lists and vectors of Boolean hashed one leaf
per element.
---
 common/containers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/containers.hpp b/common/containers.hpp
index de018f8..f508c1b 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -25,6 +25,7 @@
 #include <cstdint>
 #include <iterator>
 
+#include "common/boolean.hpp"
 #include "common/slot.hpp"
 #include "ssz/hashtree.hpp"
 #include "ssz/ssz.hpp"
@@ -35,7 +36,7 @@ namespace eth
 
 {
 template <class T>
-concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot>;
+concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot> || std::is_same_v<T, Boolean>;
 
 template <class T, std::size_t N>
 class VectorFixedSizedParts : public ssz::Container {
-- 
2.43.0


From f36b3f6c9f7fab14d97bd13bf04f48b12009286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 13/16] fix: report no CPUID leaf 7 features when the CPU has
 no leaf 7

The registers were read uninitialised, so such a CPU was taken to have whatever
the stack held, SHA-NI included.
---
 ssz/hasher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index e488227..b2d5cac 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -42,7 +42,7 @@ void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::
 
 const Hasher::IMPL Hasher::implemented() {
     IMPL ret = IMPL::NONE; 
-    std::uint32_t a, b, c, d;  // NOLINT
+    std::uint32_t a = 0, b = 0, c = 0, d = 0;  // NOLINT
     __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
     if (b & bit_SHA) ret = ret | IMPL::SHA;
     if (b & bit_AVX2) ret = ret | IMPL::AVX2;
-- 
2.43.0


From 3a4c443ee6de8551b03fac9e907f34b0f978977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 14/16] fix: compare byte strings of different lengths

The comparison operator for another length was ill-formed: both branches are
instantiated, and arrays of different sizes have no ==.
---
 common/bytes.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/bytes.hpp b/common/bytes.hpp
index 182643b..c55423f 100644
--- a/common/bytes.hpp
+++ b/common/bytes.hpp
@@ -118,8 +118,10 @@ class Bytes : public ssz::Container {
 
     template <std::size_t M>
     constexpr bool operator==(Bytes<M> const &r) const {
-        if (N != M) return false;
-        return m_arr == r.to_array();
+        if constexpr (N != M)
+            return false;
+        else
+            return m_arr == r.to_array();
     }
 
     constexpr bool operator==(std::vector<std::uint8_t> const &r) const {
-- 
2.43.0


From ff5ac269106c73e8cd0737c9ded9bbf4c3bcce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 15/16] fix: keep zero subtrees for every depth a 64-bit limit
 can need

---
 ssz/hashtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index ce1f3a3..8b57be9 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -39,7 +39,7 @@ Chunk hash_2_chunks(const Chunk& first, const Chunk& second, const Hasher& hashe
     return ret;
 }
 // clang-format off
-const auto ZERO_HASH_DEPTH{42};
+const auto ZERO_HASH_DEPTH{64};
 constexpr Chunk zero_hash{};
 
 template <std::size_t N> requires(N > 0)
-- 
2.43.0


From dd4d9181234293c1cafe2058675275610e862970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:44 +0000
Subject: [PATCH 16/16] fix: compute chunk limits without overflowing 64 bits

---
 common/bitlist.cpp    | 2 +-
 common/containers.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 5da03bd..1a01e2f 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -35,7 +35,7 @@ std::vector<ssz::Chunk> Bitlist::hash_tree() const {
     using namespace constants;
     std::vector<std::uint8_t> ret((m_arr.size() + BITS_PER_BYTE - 1) / BITS_PER_BYTE, 0);
     for (int i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
-    auto limit = (limit_ + BITS_PER_BYTE * BYTES_PER_CHUNK - 1) / (BITS_PER_BYTE * BYTES_PER_CHUNK);
+    auto limit = limit_ / (BITS_PER_BYTE * BYTES_PER_CHUNK) + (limit_ % (BITS_PER_BYTE * BYTES_PER_CHUNK) != 0);
     ssz::HashTree ht{ret, limit};
     ht.mix_in(m_arr.size());
     return ht.hash_tree();
diff --git a/common/containers.hpp b/common/containers.hpp
index f508c1b..e94b083 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -104,7 +104,8 @@ class ListFixedSizedParts : public ssz::Container {
    protected:
     std::vector<ssz::Chunk> hash_tree_x() const requires BasicObject<T> {
         auto ser = this->serialize();
-        auto limit = (limit_ * T::ssz_size + constants::BYTES_PER_CHUNK - 1) / constants::BYTES_PER_CHUNK;
+        constexpr std::size_t per_chunk = constants::BYTES_PER_CHUNK / T::ssz_size;
+        auto limit = limit_ / per_chunk + (limit_ % per_chunk != 0);
         ssz::HashTree ht{ser, limit};
         ht.mix_in(m_arr.size());
         return ht.hash_tree();
-- 
2.43.0

