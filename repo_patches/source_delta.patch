From 34d951993676f69dc31ce4c0bc441cbcd54ccc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 01/23] fix: add the missing helpers/bytes_to_string.hpp

common/bytes.hpp includes it, so nothing but test_sha256 could be compiled.
---
 helpers/bytes_to_string.hpp | 43 +++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)
 create mode 100644 helpers/bytes_to_string.hpp

diff --git a/helpers/bytes_to_string.hpp b/helpers/bytes_to_string.hpp
new file mode 100644
index 0000000..237d31c
--- /dev/null
+++ b/helpers/bytes_to_string.hpp
@@ -0,0 +1,43 @@
+/*  bytes_to_string.hpp
+ *
+ *  This file is part of Mammon.
+ *  mammon is a greedy and selfish ETH consensus client.
+ *
+ *  Copyright (c) 2021 - Reimundo Heluani (potuz) potuz@potuz.net
+ *
+ *  This program is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  This program is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#pragma once
+#include <cstdint>
+#include <string>
+
+namespace helpers {
+
+/**
+ *   \brief The 0x-prefixed, lower case hexadecimal representation of a range of bytes
+ *   \param[in] bytes  any range of std::uint8_t
+ */
+template <typename Range>
+std::string bytes_to_string(const Range &bytes) {
+    constexpr auto DIGITS = "0123456789abcdef";
+    std::string ret{"0x"};
+    for (std::uint8_t byte : bytes) {
+        ret += DIGITS[byte >> 4];    // NOLINT
+        ret += DIGITS[byte & 0x0f];  // NOLINT
+    }
+    return ret;
+}
+
+}  // namespace helpers
-- 
2.43.0


From d29b57d4d9caf7ba7b3153d5c3af084ddb575472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 02/23] fix: compile with current clang and gcc

Missing <cstdint>, an auto definition of a static member that gcc rejects and
lists of incomplete types in BeaconBlockBody, that clang rejects.
---
 beacon-chain/beacon_block.hpp | 111 +++++++++++++++++-----------------
 helpers/bytes_to_int.hpp      |   1 +
 ssz/hashtree.cpp              |   2 +-
 3 files changed, 56 insertions(+), 58 deletions(-)

diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index bdc4d32..c9e3de2 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -109,8 +109,60 @@ struct SignedVoluntaryExit : public ssz::Container {
     }
 };
 
-struct ProposerSlashing;
-struct AttesterSlashing;
+struct SignedBeaconBlockHeader : public ssz::Container {
+    BeaconBlockHeader message;
+    BLSSignature signature;
+
+    static constexpr std::size_t ssz_size = 208;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
+    BytesVector serialize() const override { return serialize_({&message, &signature}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&message, &signature});
+    }
+
+    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"message", &message}, {"signature", &signature}});
+    }
+};
+
+struct ProposerSlashing : public ssz::Container {
+    SignedBeaconBlockHeader signed_header_1, signed_header_2;
+
+    static constexpr std::size_t ssz_size = 416;
+    std::size_t get_ssz_size() const override { return ssz_size; }
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
+    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
+    }
+
+    YAML::Node encode() const override {
+        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
+    }
+};
+
+struct AttesterSlashing : public ssz::Container {
+    IndexedAttestation attestation_1, attestation_2;
+
+    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
+    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
+    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
+        return deserialize_(it, end, {&attestation_1, &attestation_2});
+    }
+    YAML::Node encode() const override {
+        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+
+    bool decode(const YAML::Node &node) override {
+        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
+    }
+};
 
 class BeaconBlockBody : public ssz::Container {
    private:
@@ -229,61 +281,6 @@ class BeaconBlock : public ssz::Container {
     }
 };
 
-struct SignedBeaconBlockHeader : public ssz::Container {
-    BeaconBlockHeader message;
-    BLSSignature signature;
-
-    static constexpr std::size_t ssz_size = 208;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&message, &signature}); }
-    BytesVector serialize() const override { return serialize_({&message, &signature}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&message, &signature});
-    }
-
-    YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"message", &message}, {"signature", &signature}});
-    }
-};
-
-struct ProposerSlashing : public ssz::Container {
-    SignedBeaconBlockHeader signed_header_1, signed_header_2;
-
-    static constexpr std::size_t ssz_size = 416;
-    std::size_t get_ssz_size() const override { return ssz_size; }
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&signed_header_1, &signed_header_2}); }
-    BytesVector serialize() const override { return serialize_({&signed_header_1, &signed_header_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&signed_header_1, &signed_header_2});
-    }
-
-    YAML::Node encode() const override {
-        return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
-    }
-};
-
-struct AttesterSlashing : public ssz::Container {
-    IndexedAttestation attestation_1, attestation_2;
-
-    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_({&attestation_1, &attestation_2}); }
-    BytesVector serialize() const override { return serialize_({&attestation_1, &attestation_2}); }
-    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
-        return deserialize_(it, end, {&attestation_1, &attestation_2});
-    }
-    YAML::Node encode() const override {
-        return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-
-    bool decode(const YAML::Node &node) override {
-        return decode_(node, {{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
-    }
-};
-
 struct SignedBeaconBlock : public ssz::Container {
     BeaconBlock message;
     BLSSignature signature;
diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index b3ed1d3..72b90ef 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -23,6 +23,7 @@
 #include <array>
 #include <concepts>
 #include <cstddef>
+#include <cstdint>
 #include <string>
 
 namespace {
diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8fa375d..43f7b1a 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -103,7 +103,7 @@ void merkleize(const std::vector<Chunk>& vec, std::vector<Chunk>& hash_tree, std
 
 namespace ssz {
 #ifndef CUSTOM_HASHER
-const auto HashTree::hasher = Hasher{};
+const Hasher HashTree::hasher{};
 #endif
 HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
     // return early if only one chunk:
-- 
2.43.0


From 0462f68fa838717976a336b3c03d5e5bd205eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 03/23] fix: keep the state of the two block SHA-NI hasher in
 registers

It was saved in static buffers, so that two threads hashing at the same time
corrupted each other's digests.
---
 ssz/sha256_shani.asm | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/ssz/sha256_shani.asm b/ssz/sha256_shani.asm
index 43265de..60ecebf 100644
--- a/ssz/sha256_shani.asm
+++ b/ssz/sha256_shani.asm
@@ -476,11 +476,12 @@ sha256_shani:
 
         ;; Rounds with PADDING
         
-	;; Save hash values for addition after rounds
-	movdqa		[ABEF_SAVEa wrt rip], STATE0
-	movdqa		[CDGH_SAVEa wrt rip], STATE1
-	movdqa		[ABEF_SAVEb wrt rip], STATE0b
-	movdqa		[CDGH_SAVEb wrt rip], STATE1b
+	;; Save hash values for addition after rounds. The message schedule is
+	;; no longer needed at this point
+	movdqa		MSGTMP0, STATE0
+	movdqa		MSGTMP1, STATE1
+	movdqa		MSGTMP0b, STATE0b
+	movdqa		MSGTMP1b, STATE1b
 
 	;; Rounds 0-3
 	movdqa		MSG, [SHA256PADDING + 0*16]
@@ -608,10 +609,10 @@ sha256_shani:
 		sha256rnds2	STATE0, STATE1
 		sha256rnds2	STATE0b, STATE1b
 
-	paddd		STATE0, [ABEF_SAVEa wrt rip]
-	paddd		STATE1, [CDGH_SAVEa wrt rip]
-	paddd           STATE0b, [ABEF_SAVEb wrt rip]
-	paddd		STATE1b, [CDGH_SAVEb wrt rip]
+	paddd		STATE0, MSGTMP0
+	paddd		STATE1, MSGTMP1
+	paddd           STATE0b, MSGTMP0b
+	paddd		STATE1b, MSGTMP1b
 
 
 	;; Write hash values back in the correct order
@@ -1014,12 +1015,3 @@ PADDING:
         dd      0xc39c91f2, 0x9eccabbd, 0xb5c9a0e6, 0x532fb63c
         dd      0xd2c741c6, 0x7237ea3, 0xa4954b68, 0x4c191d76
 
-section .data
-
-align 64
-
-ABEF_SAVEa:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEa:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-ABEF_SAVEb:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEb:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-
-- 
2.43.0


From efb3feaa77efd717051f7f2885aa6a747a18f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 04/23] fix: reject bitlists without a delimiting bit

An empty range was read out of bounds, a last byte equal to zero was taken as
an empty one, and from_hexstring ignored the result of deserialize.
---
 common/bitlist.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index acc70d0..c5bf758 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -50,8 +50,11 @@ std::vector<std::uint8_t> Bitlist::serialize() const {
     return ret;
 }
 bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
+    // There should be at least one byte, with the delimiting bit
+    if (it == end) return false;
     auto last = end;
     --last;
+    if (*last == 0) return false;
     int msb = std::countl_zero(*last);
     m_arr.clear();
 
@@ -74,7 +77,7 @@ void Bitlist::from_hexstring(const std::string& str) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-    deserialize(hex.begin(), hex.end());
+    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string is not a valid bitlist");
 }
 
 std::string Bitlist::to_string() const {
-- 
2.43.0


From 061bbd751276541ffd59632991e991ed4c0d93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 05/23] fix: write bitlists and bitvectors in hexadecimal

to_string streamed the bytes as characters.
---
 common/bitlist.cpp   | 13 +++----------
 common/bitvector.hpp | 10 ++--------
 2 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index c5bf758..4671fd0 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -23,12 +23,11 @@
 
 #include <bit>
 #include <cstdint>
-#include <iomanip>
-#include <iostream>
-#include <sstream>
+#include <stdexcept>
 
 #include "config.hpp"
 #include "helpers/bytes_to_int.hpp"
+#include "helpers/bytes_to_string.hpp"
 #include "ssz/hashtree.hpp"
 
 namespace eth {
@@ -81,13 +80,7 @@ void Bitlist::from_hexstring(const std::string& str) {
 }
 
 std::string Bitlist::to_string() const {
-    std::stringstream os;
-    std::ios_base::fmtflags save = std::cout.flags();
-    auto serial = this->serialize();
-    os << "0x";
-    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << *i;
-    std::cout.flags(save);
-    return os.str();
+    return helpers::bytes_to_string(this->serialize());
 };
 
 YAML::Node Bitlist::encode() const {
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 276045f..3a888bc 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -27,6 +27,7 @@
 #include <iostream>
 
 #include "common/bytes.hpp"
+#include "helpers/bytes_to_string.hpp"
 #include "ssz/ssz.hpp"
 #include "ssz/ssz_container.hpp"
 #include "yaml-cpp/yaml.h"
@@ -61,14 +62,7 @@ class Bitvector : public ssz::Container {
     }
 
     std::string to_string() const {
-        std::stringstream os;
-        std::ios_base::fmtflags save = std::cout.flags();
-        auto serial = this->serialize();
-        os << "0x";
-        for (auto i = serial.cbegin(); i != serial.cend(); ++i)
-            os << std::setfill('0') << std::setw(2) << std::hex << *i;
-        std::cout.flags(save);
-        return os.str();
+        return helpers::bytes_to_string(this->serialize());
     };
 
     friend std::ostream &operator<<(std::ostream &os, const Bitvector<N> &m_bits) {
-- 
2.43.0


From ad2a513c7167e55a3a4eeb321d38a20617fcb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 06/23] fix: initialize bitvectors and reject those with unused
 bits set

---
 common/bitvector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 3a888bc..73299e0 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -36,7 +36,7 @@ namespace eth {
 template <unsigned N>
 class Bitvector : public ssz::Container {
    private:
-    std::array<bool, N> m_arr;
+    std::array<bool, N> m_arr{};
 
    public:
     static constexpr std::size_t ssz_size = (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE;
@@ -76,6 +76,8 @@ class Bitvector : public ssz::Container {
     }
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         if (std::distance(it, end) != (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE) return false;
+        // The unused bits of the last byte should be zero
+        if (N % constants::BITS_PER_BYTE && *std::prev(end) >> (N % constants::BITS_PER_BYTE)) return false;
         for (auto i = it; i != end; ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * std::distance(it, i) + j < N;
                  ++j)
-- 
2.43.0


From 4f4ad962cccd0632271d4af3f010d01e51d982cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 07/23] fix: reject data following a fixed size container

---
 ssz/ssz_container.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssz/ssz_container.cpp b/ssz/ssz_container.cpp
index 13207eb..7d0cc8c 100644
--- a/ssz/ssz_container.cpp
+++ b/ssz/ssz_container.cpp
@@ -100,9 +100,9 @@ bool Container::deserialize_(SSZIterator it, SSZIterator end, const std::vector<
             it += constants::BYTES_PER_LENGTH_OFFSET;
         }
     }
-    if (last_offset)
-        if (!last_variable_part->deserialize(begin + last_offset, end)) return false;
-    return true;
+    if (last_offset) return last_variable_part->deserialize(begin + last_offset, end);
+    // Without variable parts there should be no data left
+    return it == end;
 }
 
 std::vector<Chunk> Container::hash_tree() const {
-- 
2.43.0


From 552ea17b3b987145549f67cdc1bd3fec8f7044df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 08/23] fix: reject lists longer than their limit

They were accepted and merkleizing them wrote past the end of the hash tree.
---
 common/bitlist.cpp    |  1 +
 common/containers.hpp | 10 ++++++++--
 ssz/hashtree.cpp      |  1 +
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 4671fd0..71a28c4 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -55,6 +55,7 @@ bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
     --last;
     if (*last == 0) return false;
     int msb = std::countl_zero(*last);
+    if (limit_ && constants::BITS_PER_BYTE * std::distance(it, end) - 1 - msb > limit_) return false;
     m_arr.clear();
 
     for (auto i = it; i != last; ++i)
diff --git a/common/containers.hpp b/common/containers.hpp
index e044eea..54d4a7a 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -145,6 +145,7 @@ class ListFixedSizedParts : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         m_arr.clear();
         if (std::distance(it, end) % T::ssz_size) return false;
+        if (limit_ && std::distance(it, end) / T::ssz_size > limit_) return false;
 
         for (auto i = it; i != end; i += T::ssz_size) {
             T obj;
@@ -154,7 +155,9 @@ class ListFixedSizedParts : public ssz::Container {
         return true;
     }
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        return YAML::convert<std::vector<T>>::decode(node, m_arr) && (!limit_ || m_arr.size() <= limit_);
+    }
 };
 
 template <class T>
@@ -207,6 +210,7 @@ class ListVariableSizedParts : public ssz::Container {
         auto first_offset = helpers::to_integer_little_endian<std::uint32_t>(&*it);
         if (first_offset < constants::BYTES_PER_LENGTH_OFFSET) return false;
         if (std::distance(start, end) < first_offset) return false;
+        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;
         auto last_offset = first_offset;
         it += constants::BYTES_PER_LENGTH_OFFSET;
 
@@ -229,7 +233,9 @@ class ListVariableSizedParts : public ssz::Container {
     }
 
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
-    bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
+    bool decode(const YAML::Node &node) override {
+        return YAML::convert<std::vector<T>>::decode(node, m_arr) && (!limit_ || m_arr.size() <= limit_);
+    }
 };
 
 struct Fork : public ssz::Container {
diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 43f7b1a..9eefb35 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -106,6 +106,7 @@ namespace ssz {
 const Hasher HashTree::hasher{};
 #endif
 HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
+    if (limit && chunks.size() > limit) throw std::out_of_range("more chunks than the limit");
     // return early if only one chunk:
     if (limit <= 1 && chunks.size() == 1)
         hash_tree_ = chunks;
-- 
2.43.0


From 474b0ec4edf19b5dfc9a4adad66d14704d0bd34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 09/23] fix: do not read out of the hexadecimal table

---
 helpers/bytes_to_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 72b90ef..3fc53a0 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -52,7 +52,7 @@ struct Table {
         tab['f'] = 15;
         tab['F'] = 15;
     }
-    constexpr long long operator[](char const idx) const { return tab[(std::size_t)idx]; }
+    constexpr long long operator[](std::size_t idx) const { return idx < tab.size() ? tab[idx] : 0; }
 } constexpr table;
 }  // namespace
 
-- 
2.43.0


From 36627bffb41535d1bdc71118d07a1ff6c636e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 10/23] fix: GENESIS_FORK_VERSION of the minimal preset is
 0x00000001

---
 config/minimal.hpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/minimal.hpp.in b/config/minimal.hpp.in
index 613fcdd..32abd76 100644
--- a/config/minimal.hpp.in
+++ b/config/minimal.hpp.in
@@ -30,7 +30,7 @@ namespace constants {
 
 constexpr std::uint64_t MIN_GENESIS_ACTIVE_VALIDATOR_COUNT = 64;
 constexpr std::uint64_t MIN_GENESIS_TIME = 1578009600;
-constexpr const eth::Version GENESIS_FORK_VERSION{0x00000001};
+constexpr const eth::Version GENESIS_FORK_VERSION{"0x00000001"};
 constexpr std::uint64_t GENESIS_DELAY = 300;
 
 // ALTAIR_FORK_VERSION: 0x01000001
-- 
2.43.0


From d217f2f15a431a35e7d31da1bef54a13731de50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 11/23] fix: compare the fields of the containers

Those without an operator== of their own were compared by the one of the base
class, that is always true. In particular double votes were not slashable.
---
 beacon-chain/attestation.hpp  |  8 ++++++++
 beacon-chain/beacon_block.hpp | 12 ++++++++++++
 beacon-chain/deposits.hpp     |  6 ++++++
 beacon-chain/eth1data.hpp     |  2 ++
 beacon-chain/validator.hpp    |  2 ++
 common/containers.hpp         | 12 ++++++++++++
 6 files changed, 42 insertions(+)

diff --git a/beacon-chain/attestation.hpp b/beacon-chain/attestation.hpp
index b31950b..84e5861 100644
--- a/beacon-chain/attestation.hpp
+++ b/beacon-chain/attestation.hpp
@@ -44,6 +44,8 @@ struct AttestationData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_slashable(const AttestationData&) const;
 
+    bool operator==(const AttestationData &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -58,6 +60,8 @@ struct IndexedAttestation : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_valid(const eth::BeaconState& state) const; 
 
+    bool operator==(const IndexedAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -72,6 +76,8 @@ struct PendingAttestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
 
+    bool operator==(const PendingAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -85,6 +91,8 @@ struct Attestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     
+    bool operator==(const Attestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index c9e3de2..88d8c61 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -121,6 +121,8 @@ struct SignedBeaconBlockHeader : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlockHeader &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
@@ -139,6 +141,8 @@ struct ProposerSlashing : public ssz::Container {
         return deserialize_(it, end, {&signed_header_1, &signed_header_2});
     }
 
+    bool operator==(const ProposerSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
     }
@@ -155,6 +159,8 @@ struct AttesterSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&attestation_1, &attestation_2});
     }
+    bool operator==(const AttesterSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
     }
@@ -211,6 +217,8 @@ class BeaconBlockBody : public ssz::Container {
                              &attestations_, &deposits_, &voluntary_exits_});
     }
 
+    bool operator==(const BeaconBlockBody &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"randao_reveal", &randao_reveal_},
                         {"eth1_data", &eth1_data_},
@@ -264,6 +272,8 @@ class BeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&slot_, &proposer_index_, &parent_root_, &state_root_, &body_});
     }
 
+    bool operator==(const BeaconBlock &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"slot", &slot_},
                         {"proposer_index", &proposer_index_},
@@ -291,6 +301,8 @@ struct SignedBeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlock &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
diff --git a/beacon-chain/deposits.hpp b/beacon-chain/deposits.hpp
index 5df397a..b68f124 100644
--- a/beacon-chain/deposits.hpp
+++ b/beacon-chain/deposits.hpp
@@ -43,6 +43,8 @@ struct DepositMessage : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount});
     }
+    bool operator==(const DepositMessage &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey}, {"withdrawal_credentials", &withdrawal_credentials}, {"amount", &amount}});
     }
@@ -71,6 +73,8 @@ struct DepositData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount, &signature});
     }
+    bool operator==(const DepositData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey},
                         {"withdrawal_credentials", &withdrawal_credentials},
@@ -98,6 +102,8 @@ struct Deposit : public ssz::Container {
         return deserialize_(it, end, {&proof, &data});
     }
 
+    bool operator==(const Deposit &) const = default;
+
     YAML::Node encode() const override { return encode_({{"proof", &proof}, {"data", &data}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"proof", &proof}, {"data", &data}}); }
diff --git a/beacon-chain/eth1data.hpp b/beacon-chain/eth1data.hpp
index 24503ae..eff7de4 100644
--- a/beacon-chain/eth1data.hpp
+++ b/beacon-chain/eth1data.hpp
@@ -38,6 +38,8 @@ struct Eth1Data : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&deposit_root, &deposit_count, &block_hash});
     }
+    bool operator==(const Eth1Data &) const = default;
+
     YAML::Node encode() const override {
         return encode_(
             {{"deposit_root", &deposit_root}, {"deposit_count", &deposit_count}, {"block_hash", &block_hash}});
diff --git a/beacon-chain/validator.hpp b/beacon-chain/validator.hpp
index 0b202f2..0267477 100644
--- a/beacon-chain/validator.hpp
+++ b/beacon-chain/validator.hpp
@@ -46,6 +46,8 @@ class Validator : public ssz::Container {
     bool is_eligible_for_activation_queue() const noexcept;
     bool is_slashable(const Epoch& epoch) const noexcept;
 
+    bool operator==(const Validator &) const = default;
+
     YAML::Node encode() const override; 
     bool decode(const YAML::Node &node) override;
 };
diff --git a/common/containers.hpp b/common/containers.hpp
index 54d4a7a..9aaa5a7 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -89,6 +89,8 @@ class VectorFixedSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const VectorFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::array<T, N>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::array<T, N>>::decode(node, m_arr); }
 };
@@ -154,6 +156,8 @@ class ListFixedSizedParts : public ssz::Container {
         }
         return true;
     }
+    bool operator==(const ListFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override {
         return YAML::convert<std::vector<T>>::decode(node, m_arr) && (!limit_ || m_arr.size() <= limit_);
@@ -232,6 +236,8 @@ class ListVariableSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const ListVariableSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override {
         return YAML::convert<std::vector<T>>::decode(node, m_arr) && (!limit_ || m_arr.size() <= limit_);
@@ -285,6 +291,8 @@ struct ForkData : public ssz::Container {
         return deserialize_(it, end, {&current_version, &genesis_validators_root});
     }
 
+    bool operator==(const ForkData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"current_version", &current_version}, {"genesis_validators_root", &genesis_validators_root}});
     }
@@ -307,6 +315,8 @@ struct Checkpoint : public ssz::Container {
         return deserialize_(it, end, {&epoch, &root});
     }
 
+    bool operator==(const Checkpoint &) const = default;
+
     YAML::Node encode() const override { return encode_({{"epoch", &epoch}, {"root", &root}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"epoch", &epoch}, {"root", &root}}); }
@@ -325,6 +335,8 @@ struct SigningData : public ssz::Container {
         return deserialize_(it, end, {&object_root, &domain});
     }
 
+    bool operator==(const SigningData &) const = default;
+
     YAML::Node encode() const override { return encode_({{"object_root", &object_root}, {"domain", &domain}}); }
 
     bool decode(const YAML::Node &node) override {
-- 
2.43.0


From 0d6950c7b09fc28351042a3aaf51145d56ca3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 12/23] fix: report the single block hasher only where AVX is
 available

---
 ssz/hasher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index e488227..09f51ba 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -49,7 +49,8 @@ const Hasher::IMPL Hasher::implemented() {
 
     __get_cpuid(1, &a, &b, &c, &d);
     if (c & bit_AVX) ret = ret |  IMPL::AVX;
-    if (c & bit_SSE3) ret = ret | IMPL::SSE;
+    // the single block hasher is encoded with AVX instructions as well
+    if (c & bit_AVX) ret = ret | IMPL::SSE;
 
     return ret;
 }
-- 
2.43.0


From d1541a61e6de61cb5e1af3c0b84420d04d1d41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 13/23] fix: pack lists and vectors of booleans, a basic type

---
 common/containers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/containers.hpp b/common/containers.hpp
index 9aaa5a7..ab3a2d4 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -25,6 +25,7 @@
 #include <cstdint>
 #include <iterator>
 
+#include "common/boolean.hpp"
 #include "common/slot.hpp"
 #include "ssz/hashtree.hpp"
 #include "ssz/ssz.hpp"
@@ -35,7 +36,7 @@ namespace eth
 
 {
 template <class T>
-concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot>;
+concept BasicObject = std::unsigned_integral<T> || std::is_same_v<T, Slot> || std::is_same_v<T, Boolean>;
 
 template <class T, std::size_t N>
 class VectorFixedSizedParts : public ssz::Container {
-- 
2.43.0


From 77e940ce8b0f21294fd8186ab72a3c4644286b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:48 +0000
Subject: [PATCH 14/23] fix: report paths that are no regular files in the
 benchmark

---
 bench/bench_sha256_impl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bench/bench_sha256_impl.cpp b/bench/bench_sha256_impl.cpp
index 1407072..3935a42 100644
--- a/bench/bench_sha256_impl.cpp
+++ b/bench/bench_sha256_impl.cpp
@@ -25,6 +25,7 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <system_error>
 #include <vector>
 
 #include "beacon-chain/beacon_state.hpp"
@@ -42,7 +43,12 @@ int bench::bench_sha256_impl(const char* path) {
         return 1;
     }
 
-    const auto size = std::filesystem::file_size(path);
+    std::error_code error;
+    const auto size = std::filesystem::file_size(path, error);
+    if (error) { // a directory, a device
+        std::cout << "could not read from file.\n";
+        return 1;
+    }
     std::vector<std::uint8_t> content(size);
     // NOLINTNEXTLINE
     if (!ssz_file.read(reinterpret_cast<char *>(content.data()), size)) {
-- 
2.43.0


From 8b23f442a80fa22fbc887322866d277cafab29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:04 +0000
Subject: [PATCH 15/23] fix: compare byte strings of different lengths

---
 common/bytes.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/bytes.hpp b/common/bytes.hpp
index 182643b..c55423f 100644
--- a/common/bytes.hpp
+++ b/common/bytes.hpp
@@ -118,8 +118,10 @@ class Bytes : public ssz::Container {
 
     template <std::size_t M>
     constexpr bool operator==(Bytes<M> const &r) const {
-        if (N != M) return false;
-        return m_arr == r.to_array();
+        if constexpr (N != M)
+            return false;
+        else
+            return m_arr == r.to_array();
     }
 
     constexpr bool operator==(std::vector<std::uint8_t> const &r) const {
-- 
2.43.0


From c77a77386968f691e556e23da5b755d7e78f1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 16/23] fix: do not read CPUID registers that were not set

__get_cpuid_count leaves them alone on CPUs that do not have the leaf, and
the engines reported were whatever was on the stack.
---
 ssz/hasher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index 09f51ba..b2523c6 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -42,7 +42,8 @@ void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::
 
 const Hasher::IMPL Hasher::implemented() {
     IMPL ret = IMPL::NONE; 
-    std::uint32_t a, b, c, d;  // NOLINT
+    // stay zero where the CPU does not have the leaf
+    std::uint32_t a = 0, b = 0, c = 0, d = 0;
     __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
     if (b & bit_SHA) ret = ret | IMPL::SHA;
     if (b & bit_AVX2) ret = ret | IMPL::AVX2;
-- 
2.43.0


From 884b4d8a0becd7355d0f6858f010d5929d464b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 17/23] fix: zero hashes for trees of any depth

Limits over 2^42 chunks read past the end of the table.
---
 ssz/hashtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 9eefb35..7c6d69c 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -39,7 +39,7 @@ Chunk hash_2_chunks(const Chunk& first, const Chunk& second, const Hasher& hashe
     return ret;
 }
 // clang-format off
-const auto ZERO_HASH_DEPTH{42};
+const auto ZERO_HASH_DEPTH{64};
 constexpr Chunk zero_hash{};
 
 template <std::size_t N> requires(N > 0)
-- 
2.43.0


From a3b4f23978cff08ef86ece18b278dd0dca2bf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:38 +0000
Subject: [PATCH 18/23] fix: chunk limits of lists with limits close to 2^64

---
 common/bitlist.cpp    | 3 ++-
 common/containers.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 71a28c4..455396b 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -35,7 +35,8 @@ std::vector<ssz::Chunk> Bitlist::hash_tree() const {
     using namespace constants;
     std::vector<std::uint8_t> ret((m_arr.size() + BITS_PER_BYTE - 1) / BITS_PER_BYTE, 0);
     for (int i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
-    auto limit = (limit_ + BITS_PER_BYTE * BYTES_PER_CHUNK - 1) / (BITS_PER_BYTE * BYTES_PER_CHUNK);
+    constexpr std::size_t bits_per_chunk = BITS_PER_BYTE * BYTES_PER_CHUNK;
+    auto limit = limit_ / bits_per_chunk + (limit_ % bits_per_chunk != 0);
     ssz::HashTree ht{ret, limit};
     ht.mix_in(m_arr.size());
     return ht.hash_tree();
diff --git a/common/containers.hpp b/common/containers.hpp
index ab3a2d4..3e1a4c8 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -105,7 +105,8 @@ class ListFixedSizedParts : public ssz::Container {
    protected:
     std::vector<ssz::Chunk> hash_tree_x() const requires BasicObject<T> {
         auto ser = this->serialize();
-        auto limit = (limit_ * T::ssz_size + constants::BYTES_PER_CHUNK - 1) / constants::BYTES_PER_CHUNK;
+        constexpr std::size_t parts_per_chunk = constants::BYTES_PER_CHUNK / T::ssz_size;
+        auto limit = limit_ / parts_per_chunk + (limit_ % parts_per_chunk != 0);
         ssz::HashTree ht{ser, limit};
         ht.mix_in(m_arr.size());
         return ht.hash_tree();
-- 
2.43.0


From 3cd115e42c41f2232bf59ea7db5bf9040ed09343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:38 +0000
Subject: [PATCH 19/23] fix: bitlists of more than 2^31 bits

---
 common/bitlist.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 455396b..b4b36f6 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -34,7 +34,7 @@ namespace eth {
 std::vector<ssz::Chunk> Bitlist::hash_tree() const {
     using namespace constants;
     std::vector<std::uint8_t> ret((m_arr.size() + BITS_PER_BYTE - 1) / BITS_PER_BYTE, 0);
-    for (int i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
+    for (std::size_t i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
     constexpr std::size_t bits_per_chunk = BITS_PER_BYTE * BYTES_PER_CHUNK;
     auto limit = limit_ / bits_per_chunk + (limit_ % bits_per_chunk != 0);
     ssz::HashTree ht{ret, limit};
@@ -44,7 +44,7 @@ std::vector<ssz::Chunk> Bitlist::hash_tree() const {
 
 std::vector<std::uint8_t> Bitlist::serialize() const {
     std::vector<std::uint8_t> ret(m_arr.size() / constants::BITS_PER_BYTE + 1, 0);
-    for (int i = 0; i < m_arr.size(); ++i)
+    for (std::size_t i = 0; i < m_arr.size(); ++i)
         ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % constants::BITS_PER_BYTE);
     ret.back() |= 1 << (m_arr.size() % constants::BITS_PER_BYTE);
     return ret;
@@ -74,7 +74,7 @@ void Bitlist::from_hexstring(const std::string& str) {
 
     std::uint8_t buffer = 0;
     std::vector<std::uint8_t> hex;
-    for (int offset = 2; offset < str.length(); offset += 2) {
+    for (std::size_t offset = 2; offset < str.length(); offset += 2) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-- 
2.43.0


From 7aecbb1ac72afc4b75d2d12a53b95ee3656ce5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:38 +0000
Subject: [PATCH 20/23] fix: refuse strings with more bits than the bitvector

---
 common/bitvector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 73299e0..127cac5 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -55,6 +55,10 @@ class Bitvector : public ssz::Container {
             buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
             hex.push_back(buffer);
         }
+        if (hex.size() > ssz_size) throw std::out_of_range("string longer than the bitvector");
+        // The unused bits of the last byte should be zero
+        if (N % constants::BITS_PER_BYTE && hex.size() == ssz_size && hex.back() >> (N % constants::BITS_PER_BYTE))
+            throw std::invalid_argument("string with unused bits set");
         m_arr.fill(0);
         for (int i = 0; i < hex.size(); ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * i + j < N; ++j)
-- 
2.43.0


From fbdbffefb59f4ccf419dcc0f13efa1f5318552fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:35 +0000
Subject: [PATCH 21/23] fix: convert strings of eight and more hexadecimal
 digits without overflow

---
 helpers/bytes_to_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 3fc53a0..21b1726 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -69,7 +69,7 @@ constexpr int hextoint(char number) { return table[(std::size_t)number]; }
 
 constexpr int strhex2int(std::string_view const &str) {
     int ret = 0;
-    for (int i(str.size() - 1), j(1); i >= 0; --i, j *= 16) ret += (hextoint(str[i]) * j);
+    for (char digit : str) ret = ret * 16 + hextoint(digit);
     return ret;
 }
 }  // namespace helpers
-- 
2.43.0


From bd1a2a1e65d0ced226debacbfbd6221e6501a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:45 +0000
Subject: [PATCH 22/23] fix: read integers at any address without undefined
 behaviour

---
 helpers/bytes_to_int.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 21b1726..a0f5ce0 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -24,6 +24,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <string>
 
 namespace {
@@ -61,8 +62,9 @@ namespace helpers {
 // The caller is responsible to check the bounds
 template <typename T>
 requires(std::unsigned_integral<T>) T to_integer_little_endian(const std::uint8_t *arr) {
-    auto ptr = reinterpret_cast<const T *>(arr);
-    return *ptr;
+    T ret;
+    std::memcpy(&ret, arr, sizeof(T));
+    return ret;
 }
 
 constexpr int hextoint(char number) { return table[(std::size_t)number]; }
-- 
2.43.0


From 9599ae51501a76cbe0ef02171d6dd1770429a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:15 +0000
Subject: [PATCH 23/23] fix: the benchmark waits forever for a pipe nobody
 writes to

---
 bench/bench_sha256_impl.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bench/bench_sha256_impl.cpp b/bench/bench_sha256_impl.cpp
index 3935a42..26d4e5b 100644
--- a/bench/bench_sha256_impl.cpp
+++ b/bench/bench_sha256_impl.cpp
@@ -36,6 +36,13 @@ constexpr auto BENCH_ROUNDS = 10;
 } // namespace
 
 int bench::bench_sha256_impl(const char* path) {
+    std::error_code error;
+    // opening a pipe would wait for someone to write to it
+    if (std::filesystem::exists(path, error) && !std::filesystem::is_regular_file(path, error)) {
+        std::cout << "not a regular file: " << path << std::endl;
+        return 1;
+    }
+
     std::ifstream ssz_file(path, std::ios::in | std::ios::binary);
     if (not ssz_file.is_open())
     {
@@ -43,9 +50,8 @@ int bench::bench_sha256_impl(const char* path) {
         return 1;
     }
 
-    std::error_code error;
     const auto size = std::filesystem::file_size(path, error);
-    if (error) { // a directory, a device
+    if (error) {
         std::cout << "could not read from file.\n";
         return 1;
     }
-- 
2.43.0

