From f873b93ff92c79b921a4aef3f87c76ce27314af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 01/22] fix: hex lookup indexed its table with a negative char

A byte >= 0x80 in the text read outside the 256 entry table.
---
 include/dottorrent/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 281002b..10577db 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -47,7 +47,7 @@ struct hex_to_int_lookup_table
 {
     constexpr hex_to_int_lookup_table() = default;
     constexpr unsigned char operator()(char i) const noexcept
-    { return table_[i]; }
+    { return table_[static_cast<unsigned char>(i)]; }
 
 private:
     static constexpr std::array<unsigned char, 256> table_ = generate_hex_to_int_table();
-- 
2.43.0


From ca83bda3ba2c8077763604e4565847a906829de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 02/22] fix: fixed-size hex parsing accepted a trailing odd
 digit

---
 include/dottorrent/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 10577db..4b93fd3 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -112,7 +112,7 @@ inline std::optional<std::array<std::byte, N>>
 constexpr from_hexadecimal_string(std::string_view hexdigest)
 {
     std::array<std::byte, N> data{};
-    if (hexdigest.size()/2 != N) return std::nullopt;
+    if (hexdigest.size() != 2 * N) return std::nullopt;
 
     std::byte byte_value;
     for (size_t i = 0; i < hexdigest.size() / 2; ++i) {
-- 
2.43.0


From 42c45f657f14e933edd8fb0eb05e675105ddd691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 03/22] fix: streaming hex parsing rejected bytes >= 0x80 and
 overran odd input

It parsed each pair as a signed char, accepted signs and single digits,
read past the end of odd-length text and never advanced the output iterator.
---
 include/dottorrent/hex.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 4b93fd3..6a28171 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -96,14 +96,13 @@ inline constexpr void from_hexadecimal_string(OutputIt out, std::string_view hex
     auto it = hex_string.data();
     auto end = hex_string.data() + hex_string.size();
     while (it != end) {
-        char v;
-        auto r = std::from_chars(it, it+2, v, /*base*/ 16);
+        std::byte v;
 
-        if (r.ec != std::errc{}) [[unlikely]] {
-            throw std::system_error(std::make_error_code(r.ec));
+        if (end - it < 2 || !detail::hex_to_byte(it[0], it[1], v)) [[unlikely]] {
+            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
         }
-        it = r.ptr;
-        *out = std::byte(v);
+        it += 2;
+        *out++ = v;
     }
 }
 
-- 
2.43.0


From 056a26235d2f940c094b7c3c0806b259cb2f6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 04/22] fix: hex encoding to an output iterator did not compile

---
 include/dottorrent/hex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 6a28171..2d57c5b 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -135,13 +135,13 @@ inline std::string to_hexadecimal_string(std::span<const std::byte> data)
 }
 
 template <std::output_iterator<char> OutputIt>
-inline constexpr char* to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
+inline constexpr OutputIt to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
 {
     std::array<char, 2> buf {};
 
     for (const auto c : data) {
         detail::byte_to_hex(c, buf.data());
-        std::copy_n(buf, 2, out);
+        out = std::copy_n(buf.data(), 2, out);
     }
     return out;
 }
-- 
2.43.0


From 3a109c77bdddd30fff2296ca30f6425260b300a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 05/22] fix: percent-encoding did not advance the output
 iterator

---
 include/dottorrent/percent_encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 136728c..af76859 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -77,7 +77,7 @@ constexpr void percent_encode(InputIt first, InputIt last, OutputIt out)
 
     for (; first != last; ++first) {
         auto size = detail::percent_encode_char(*first, buffer.data());
-        std::copy_n(buffer.data(), size, out);
+        out = std::copy_n(buffer.data(), size, out);
     }
 }
 
-- 
2.43.0


From 6ad730ce1a5bfa36acf91ff6d883abd9a2e5601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 06/22] fix: percent-decoding accepted malformed escapes

"%zz" stored an uninitialised byte, "%4%1" decoded as one escape and a
lone trailing "%" was dropped, all reported as success.
---
 include/dottorrent/percent_encoding.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index af76859..230ea56 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -113,6 +113,9 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
 
         // We must start with copying the two hexadecimal character to the buffer
         if (c == '%') {
+            if (copy_to_buffer_status) [[unlikely]] {
+                return percent_decode_status::non_hex_encoded_character;
+            }
             copy_to_buffer_status = true;
             continue;
         }
@@ -128,7 +131,9 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
             // full percent encoded character has been copied to buffer, decode it and reset status
             if (buffer_offset == 2) {
                 std::byte result;
-                dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result);
+                if (!dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result)) [[unlikely]] {
+                    return percent_decode_status::non_hex_encoded_character;
+                }
                 *out++ = static_cast<char>(result);
 
                 copy_to_buffer_status = false;
@@ -140,7 +145,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         }
     }
 
-    if (buffer_offset != 0) [[unlikely]] {
+    if (copy_to_buffer_status) [[unlikely]] {
         return percent_decode_status::incomplete_encoded_character;
     }
     return percent_decode_status{};
-- 
2.43.0


From f9816f76316a6dd98bd65230989bffe4a2f3d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 07/22] fix: openssl digests ignored failures and overran short
 output spans

---
 src/hasher/backends/openssl.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index 0068f21..4d98599 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -127,12 +127,19 @@ message_digest::message_digest(message_digest_algorithm algorithm, ::ENGINE* eng
 }
 
 void message_digest::update(std::span<const std::byte> data) {
-    ::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size());
+    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) != 1) {
+        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
+    }
 }
 
 void message_digest::finalize_to(std::span<std::byte> digest) {
+    if (digest.size() < static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))) {
+        throw std::system_error(make_error_code(evp_errc::buffer_too_small));
+    }
     auto digest_size = static_cast<unsigned int>(digest.size());
-    ::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size);
+    if (::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size) != 1) {
+        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
+    }
 }
 
 void message_digest::reset() {
-- 
2.43.0


From b3e3f0910c8be6dcd6063d87b18881d24410fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 08/22] fix: openssl digest construction leaked its context
 when it failed

---
 src/hasher/backends/openssl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index 4d98599..43cf386 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -112,16 +112,17 @@ message_digest::message_digest(message_digest_algorithm algorithm, ::ENGINE* eng
         , algorithm_context_(detail::get_evp_message_digest(algorithm))
         , engine_(engine)
 {
+    if (algorithm_context_ == nullptr) {
+        throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
+    }
     context_ = ::EVP_MD_CTX_new();
     if (context_ == nullptr) {
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
     ::EVP_MD_CTX_init(context_);
 
-    if (algorithm_context_ == nullptr) {
-        throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
-    }
     if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
 }
-- 
2.43.0


From 24604b69be4daaa701bfc3cad7034d0713ee0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 09/22] fix: try_push exceeded the capacity after it was
 lowered

---
 include/dottorrent/concurrent_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index a2e1c6c..fbc4625 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -54,7 +54,7 @@ public:
     bool try_push(T &&item) {
         {
             std::unique_lock<std::mutex> lk(mutex_);
-            if (queue_.size() == capacity_)
+            if (queue_.size() >= capacity_)
                 return false;
             queue_.push(std::move(item));
         }
-- 
2.43.0


From f2230fc9e886c5eeef4da98745834a0f5e43f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 10/22] fix: raising the queue capacity did not wake blocked
 producers

---
 include/dottorrent/concurrent_queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index fbc4625..11489eb 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -92,8 +92,11 @@ public:
 
     void set_capacity(std::size_t n) noexcept
     {
-        std::unique_lock<std::mutex> lk(mutex_);
-        capacity_ = n;
+        {
+            std::unique_lock<std::mutex> lk(mutex_);
+            capacity_ = n;
+        }
+        not_full_.notify_all();
     }
 
 private:
-- 
2.43.0


From 9d21ebf8d8796c7d4e8a0c9ffda2cb7ec315eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:07 +0000
Subject: [PATCH 11/22] fix: sha3_384 hash values had 284 bits, const value()
 did not compile

---
 include/dottorrent/hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index b43632c..2de430a 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -104,7 +104,7 @@ public:
     constexpr auto end() const noexcept -> const_iterator
     { return data_.end(); }
 
-    constexpr auto value() const noexcept -> storage_type&
+    constexpr auto value() const noexcept -> const storage_type&
     { return data_; }
 
     constexpr auto data() noexcept -> value_type*
@@ -202,7 +202,7 @@ DOTTORRENT_HASH_CLASS_TEMPLATE(sha384,     384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha512,     512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_224,   224)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_256,   256)
-DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   284)
+DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_512,   512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake128,   128)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake256,   256)
-- 
2.43.0


From 869278bb269a748f1ed05fe1ffa004ccc8c084b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:18 +0000
Subject: [PATCH 12/22] fix: a failed object creation used up pool capacity

---
 include/dottorrent/object_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/object_pool.hpp b/include/dottorrent/object_pool.hpp
index a3cebee..d05206b 100644
--- a/include/dottorrent/object_pool.hpp
+++ b/include/dottorrent/object_pool.hpp
@@ -122,8 +122,8 @@ private:
             // try to retrieve an unused resource from the pool
             if (queue_.try_pop(resource)) {}
             else if (resources_left_.load(std::memory_order_relaxed) != 0) {
-                resources_left_.fetch_sub(1, std::memory_order_relaxed);
                 resource = std::invoke(Policy::construct);
+                resources_left_.fetch_sub(1, std::memory_order_relaxed);
             } else {
                 queue_.pop(resource);
             }
-- 
2.43.0


From 631db0d88e58aa3f4e76b4007090d31e9047a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:36 +0000
Subject: [PATCH 13/22] fix: order hybrid info-hashes by both hashes,
 consistent with equality

---
 include/dottorrent/info_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/info_hash.hpp b/include/dottorrent/info_hash.hpp
index 7a1e1c1..aa80076 100644
--- a/include/dottorrent/info_hash.hpp
+++ b/include/dottorrent/info_hash.hpp
@@ -139,7 +139,7 @@ public:
             return protocol_version_ <=> other.protocol_version_;
         }
 
-        if (protocol_version_ == protocol::v1) {
+        if (v1_hash_ != other.v1_hash_) {
             return v1_hash_ <=> other.v1_hash_;
         }
         return v2_hash_ <=> other.v2_hash_;
-- 
2.43.0


From 89cd1133b02cffdae3cb6847347c078848a53a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:42 +0000
Subject: [PATCH 14/22] fix: generic_checksum from characters wrote past the
 end of an empty vector

---
 include/dottorrent/checksum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/checksum.hpp b/include/dottorrent/checksum.hpp
index 9c29b80..6a5b289 100644
--- a/include/dottorrent/checksum.hpp
+++ b/include/dottorrent/checksum.hpp
@@ -64,7 +64,7 @@ public:
             , key_(key)
     {
         data_.reserve(value.size());
-        std::transform(std::begin(value), std::end(value), std::begin(data_),
+        std::transform(std::begin(value), std::end(value), std::back_inserter(data_),
                 [](char i) { return std::byte(i); });
     }
 
-- 
2.43.0


From 67fa499f290c26be0ecc370367077860e2ecc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 15/22] fix: merkle tree assignment did not compile

---
 include/dottorrent/merkle_tree.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 94eed2e..a7e8cd7 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -51,10 +51,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = other.data_;
+        return *this;
     }
 
     merkle_tree& operator=(merkle_tree&& other) noexcept
@@ -62,10 +63,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = std::move(other.data_);
+        return *this;
     }
 
     /// Set the number of leaf nodes and initialize them to `value`
-- 
2.43.0


From 1e08aed26222213be56c1722270da68eceb89ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 16/22] fix: merkle_tree::has_root returned a reference made
 from a truth value

---
 include/dottorrent/merkle_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index a7e8cd7..b2b1a86 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -86,7 +86,7 @@ public:
     }
 
     /// Return true if the merkle root is set.
-    const value_type& has_root()
+    bool has_root()
     {
         return data_[0] != value_type{};
     }
-- 
2.43.0


From fea7034190fe660c1c770483f0482d098fca180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 17/22] fix: merkle tree index arithmetic overflowed 32 bits

---
 include/dottorrent/merkle_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index b2b1a86..b5a77d9 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -232,15 +232,15 @@ private:
     }
 
     static constexpr std::size_t nodes_in_layer(std::size_t layer) noexcept
-    { return (1U << layer); }
+    { return (std::size_t{1} << layer); }
 
     static constexpr std::size_t total_node_count_for_height(std::size_t height) noexcept
     {
-        return (1U << (height + 1)) - 1;
+        return (std::size_t{1} << (height + 1)) - 1;
     }
 
     static constexpr std::size_t get_flat_index(std::size_t layer, std::size_t index) noexcept
-    { return (1U << layer) - 1 + index; }
+    { return (std::size_t{1} << layer) - 1 + index; }
 
     static constexpr std::size_t get_node_layer(std::size_t flat_index) noexcept
     { return detail::log2_floor(flat_index+1); }
@@ -266,11 +266,11 @@ private:
 
     /// Return the index of the leftmost leaf of a subtree with root at `flat_idx` and height `n`.
     static constexpr std::size_t left_child_n(std::size_t flat_idx, std::size_t n) noexcept
-    { return (flat_idx * (2U << n)) + (2U << n) -1; }
+    { return (flat_idx * (std::size_t{2} << n)) + (std::size_t{2} << n) -1; }
 
     /// Return the index of the rightmost leaf of a subtree with root at `flat_idx` and height `n`.
     static constexpr std::size_t right_child_n(std::size_t flat_idx, std::size_t n) noexcept
-    { return (flat_idx * (2U << n)) + (4U << n) - 2; }
+    { return (flat_idx * (std::size_t{2} << n)) + (std::size_t{4} << n) - 2; }
 
     std::vector<value_type> data_;
     mutable std::shared_mutex mutex_;
-- 
2.43.0


From ab2ed268d373bd837b93c298ca211f9eca447d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:34 +0000
Subject: [PATCH 18/22] fix: merkle tree layers of subtrees and node ranges
 went past the tree

---
 include/dottorrent/merkle_tree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index b5a77d9..ef550b6 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -165,8 +165,9 @@ public:
     /// Not thread safe
     std::span<const value_type> get_layer(std::size_t depth, std::size_t root_idx = 0)
     {
-        Ensures(depth <= tree_height());
-        auto begin = std::next(data_.cbegin(), get_flat_index(depth, root_idx));
+        Ensures(root_idx < data_.size());
+        Ensures(get_node_layer(root_idx) + depth <= tree_height());
+        auto begin = std::next(data_.cbegin(), ((root_idx + 1) << depth) - 1);
         return std::span<const value_type>(&*begin, nodes_in_layer(depth));
     }
 
@@ -187,8 +188,7 @@ public:
         Expects(first <= last);
         std::shared_lock lck{mutex_};
         auto d_first = get_flat_index(layer, first);
-        auto d_last = get_flat_index(layer, last);
-        return std::span(&data_[d_first], &data_[d_last]);
+        return std::span<const value_type>(data_.data() + d_first, last - first);
     }
 
     const value_type& get_leaf(std::size_t index) const
-- 
2.43.0


From abe7936ac0479d880da1495750e400dc732a5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:50 +0000
Subject: [PATCH 19/22] fix: copies of a file storage lost the file mode and
 kept a stale index

---
 include/dottorrent/file_storage.hpp | 2 +-
 src/file_storage.cpp                | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 4327bf4..b7c896d 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -260,7 +260,7 @@ private:
     std::vector<sha1_hash> pieces_ {};
     std::mutex pieces_mutex_ {};
 
-    mutable bool index_valid_;
+    mutable bool index_valid_ = false;
     mutable std::vector<std::size_t> files_index_;
 };
 
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b4539d3..67c9c9e 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -4,8 +4,10 @@ namespace dottorrent {
 
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
+    , total_regular_file_size_(other.total_regular_file_size_)
     , piece_size_(other.piece_size_)
     , root_directory_(other.root_directory_)
+    , file_mode_(other.file_mode_)
     , files_(other.files_)
     , pieces_(other.pieces_)
     {}
@@ -13,9 +15,12 @@ file_storage::file_storage(const file_storage& other)
 file_storage& file_storage::operator=(const file_storage& other)
 {
     if (&other == this) return *this;
+    index_valid_ = false;
     total_file_size_ = other.total_file_size_;
+    total_regular_file_size_ = other.total_regular_file_size_;
     piece_size_ = other.piece_size_;
     root_directory_ = other.root_directory_;
+    file_mode_ = other.file_mode_;
     files_ = other.files_;
     pieces_ = other.pieces_;
 
-- 
2.43.0


From cb6a414892020d7734146ef65a2ec2046faabb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:50 +0000
Subject: [PATCH 20/22] fix: piece range of a file missed pieces when the file
 starts inside a piece

---
 src/file_storage.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 67c9c9e..0d00824 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -215,9 +215,11 @@ std::pair<std::size_t, std::size_t> file_storage::get_pieces_offsets(std::size_t
             std::plus<>{},
             [&](const file_entry& e) { return e.file_size(); });
 
-    auto offset = cumulative_size / piece_size_;
-    auto count = (entry.file_size() + piece_size_ - 1) / piece_size_;
-    return {offset, offset+count};
+    auto first = cumulative_size / piece_size_;
+    // an empty file has no bytes in any piece
+    if (entry.file_size() == 0) return {first, first};
+    auto last = (cumulative_size + entry.file_size() + piece_size_ - 1) / piece_size_;
+    return {first, last};
 }
 
 void file_storage::set_piece_hash(std::size_t index, const sha1_hash& hash)
-- 
2.43.0


From e0762476a6808475f3f79c7b57023a15c6288cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:50 +0000
Subject: [PATCH 21/22] fix: aligning an empty storage read past its end, and
 one with padding files terminated

---
 src/file_storage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 0d00824..9715758 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -440,7 +440,10 @@ void optimize_alignment(file_storage& storage)
     // piece size needs to be initialized
     Expects(storage.piece_size() != 0);
 
+    if (storage.file_count() == 0) return;
+
     const std::size_t piece_size = storage.piece_size();
+    const std::size_t total_file_size = storage.total_file_size();
 
     std::size_t total_padding_bytes = 0;
     std::vector<file_entry> aligned_entries {};
@@ -465,7 +468,7 @@ void optimize_alignment(file_storage& storage)
     storage.clear();
     storage.add_files(aligned_entries.begin(), aligned_entries.end());
 
-    Ensures(storage.total_file_size() == storage.total_regular_file_size() + total_padding_bytes);
+    Ensures(storage.total_file_size() == total_file_size + total_padding_bytes);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From a44172fbfa2322126838eb0eb9edd58abd4853a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:22 +0000
Subject: [PATCH 22/22] fix: move assignment of a file entry lost the checksums
 of its source

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ffd1b47..37abd00 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -94,7 +94,7 @@ file_entry& file_entry::operator=(file_entry&& other) noexcept
     attributes_ = other.attributes_;
     symlink_path_ = std::move(other.symlink_path_);
     last_modified_time_ = other.last_modified_time_;
-    checksums_ = std::move(checksums_);
+    checksums_ = std::move(other.checksums_);
     has_v2_data_ = other.has_v2_data_;
 
     return *this;
-- 
2.43.0

