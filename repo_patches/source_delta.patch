From 74de2c9dc7f018d6a3e48dc1e7204538c8953c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 01/36] fix: add_mod_p reduces an overflowing sum with the
 offset of p, not of q

The carry branch passed the 4-limb Q_ARRAY_INVERSE_OFFSET to a 64-limb addition: it read out of
bounds and produced a wrong sum.
---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4794df2..19ae52f 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -547,7 +547,7 @@ namespace electionguard
 
             } else {
                 Bignum4096::add(static_cast<uint64_t *>(addResult),
-                                const_cast<uint64_t *>(Q_ARRAY_INVERSE_OFFSET),
+                                const_cast<uint64_t *>(P_ARRAY_INVERSE_OFFSET),
                                 static_cast<uint64_t *>(addResult));
             }
         }
-- 
2.43.0


From 0f83d739daf86c74f568c4f80ef01a04a1bab8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 02/36] fix: mod_p passes a double-width operand to the
 reduction

The reduction reads 128 limbs, but the 64-limb element was passed directly, so it read out of bounds.
---
 src/electionguard/group.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 19ae52f..0c81695 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -559,8 +559,11 @@ namespace electionguard
 
     std::unique_ptr<ElementModP> mod_p(const ElementModP &element)
     {
+        // the reduction reads a double-width operand
+        uint64_t operand[MAX_P_LEN_DOUBLE] = {};
+        copy(element.get(), element.get() + MAX_P_LEN, static_cast<uint64_t *>(operand));
         uint64_t modResult[MAX_P_LEN] = {};
-        CONTEXT_P().mod(element.get(), static_cast<uint64_t *>(modResult));
+        CONTEXT_P().mod(static_cast<uint64_t *>(operand), static_cast<uint64_t *>(modResult));
         return make_unique<ElementModP>(modResult, true);
     }
 
-- 
2.43.0


From 00cf1acac6f98b3da05be2b1c4c43e91509d3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 03/36] fix: reject limb vectors longer than the element
 instead of overflowing the stack

---
 src/electionguard/group.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 0c81695..174bb36 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -114,6 +114,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
+            if (elem.size() > MAX_P_LEN) {
+                throw out_of_range("Value for ElementModP has too many limbs");
+            }
             uint64_t array[MAX_P_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(P().get()),
@@ -275,6 +278,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked)
         {
+            if (elem.size() > MAX_Q_LEN) {
+                throw out_of_range("Value for ElementModQ has too many limbs");
+            }
             uint64_t array[MAX_Q_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum256::lessThan(const_cast<uint64_t *>(Q().get()),
-- 
2.43.0


From 3ea1c46ab6690a6d7611f0c6ac7eac27c6c9a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 04/36] fix: rand_p draws the 512 bytes it reads

Only 256 bytes were drawn, so the conversion read past the end of the buffer.
---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 174bb36..c89bda8 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -803,7 +803,7 @@ namespace electionguard
 
     unique_ptr<ElementModP> rand_p()
     {
-        auto bytes = Random::getBytes();
+        auto bytes = Random::getBytes(ByteSize::SHA512);
 
         auto *bigNum = Bignum4096::fromBytes(MAX_P_SIZE, const_cast<uint8_t *>(bytes.data()));
         if (bigNum == nullptr) {
-- 
2.43.0


From df89e01cca52f3e25f81e238b37739e0b2f3d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 05/36] fix: pow_mod_p uses every bit of a full-width exponent

The byte size of an element was passed as the bit width of the exponent, so exponents of 2^512
and above were silently truncated.
---
 src/electionguard/group.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index c89bda8..ec1a367 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -610,8 +610,18 @@ namespace electionguard
             return ElementModP::fromUint64(1UL);
         }
 
+        // the width of the exponent is given in bits; exponents derived from elements mod q
+        // are far shorter than an element mod p, so only use the full width when it is needed
+        uint32_t exponentBits = MAX_P_SIZE;
+        for (uint64_t i = MAX_P_SIZE / 64; i < MAX_P_LEN; i++) {
+            if (exponent.get()[i] != 0) {
+                exponentBits = MAX_P_SIZE * 8;
+            }
+        }
+
         uint64_t result[MAX_P_LEN] = {};
-        CONTEXT_P().modExp(base.get(), MAX_P_SIZE, exponent.get(), static_cast<uint64_t *>(result));
+        CONTEXT_P().modExp(base.get(), exponentBits, exponent.get(),
+                           static_cast<uint64_t *>(result));
         return make_unique<ElementModP>(result, true);
     }
 
-- 
2.43.0


From 1c0e7f35510f4563db2270fe773e54c351cd4de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 06/36] fix: cloning a disjunctive proof keeps the data
 commitment of its one branch

---
 src/electionguard/chaum_pedersen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 6d665a3..61e4997 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -295,7 +295,7 @@ namespace electionguard
     {
         return make_unique<DisjunctiveChaumPedersenProof>(
           pimpl->proof_zero_pad->clone(), pimpl->proof_zero_data->clone(),
-          pimpl->proof_one_pad->clone(), pimpl->proof_one_pad->clone(),
+          pimpl->proof_one_pad->clone(), pimpl->proof_one_data->clone(),
           pimpl->proof_zero_challenge->clone(), pimpl->proof_one_challenge->clone(),
           pimpl->challenge->clone(), pimpl->proof_zero_response->clone(),
           pimpl->proof_one_response->clone());
-- 
2.43.0


From 5feb3d33e9a1258b50e5bebe1d38fb127093b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 07/36] fix: copying a key pair leaves the source intact

The copy constructor moved the keys out of the object it copied.
---
 src/electionguard/elgamal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index eb2e1c6..9f57700 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -39,7 +39,8 @@ namespace electionguard
     // Lifecycle Methods
 
     ElGamalKeyPair::ElGamalKeyPair(const ElGamalKeyPair &other)
-        : pimpl(new Impl(move(*other.pimpl)))
+        : pimpl(new Impl(make_unique<ElementModQ>(*other.pimpl->secretKey),
+                         make_unique<ElementModP>(*other.pimpl->publicKey)))
     {
     }
 
-- 
2.43.0


From e28c50272e3a67a22ffb556e9715d0c162f3bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 08/36] fix: the hex representation of zero can be read back

Trimming the leading zeros of "00" left nothing, and fromHex threw on the output of toHex.
---
 src/electionguard/convert.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index e4a0744..a55b0ee 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -170,7 +170,12 @@ namespace electionguard
     inline string sanitize_hex_string(const string &hexString)
     {
         string sanitized;
-        string leftTrimmed = hexString.substr(hexString.find_first_not_of(LEADING_CHARS));
+        auto first = hexString.find_first_not_of(LEADING_CHARS);
+        if (first == string::npos && hexString.find('0') != string::npos) {
+            // nothing but zeros: the value zero
+            return "00";
+        }
+        string leftTrimmed = hexString.substr(first);
         bool isOdd = (leftTrimmed.size() % 2) != 0U;
         if (isOdd) {
             Log::trace("sanitize_hex_string: is odd");
-- 
2.43.0


From a1115ff95b477da10c541ba501eeb5f443cdf04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 09/36] fix: serializing hashed ElGamal data and mac keeps
 leading zero bytes

The bytes were written as a number, without leading zero bytes, and trimmed again when read, so
about one ballot contest in 128 could not be decrypted after a round trip.
---
 src/electionguard/convert.hpp   | 11 +++++++++++
 src/electionguard/serialize.hpp | 11 ++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index a55b0ee..2932595 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -204,6 +204,17 @@ namespace electionguard
         return detectedFirstNonZeroBytes ? (stream.str()) : "00";
     }
 
+    /// convert every byte to hex, including any initial 0-bytes
+    inline string bytes_to_padded_hex(const vector<uint8_t> &bytes)
+    {
+        stringstream stream;
+        stream << hex << uppercase;
+        for (auto byte : bytes) {
+            stream << setw(2) << setfill('0') << static_cast<uint16_t>(byte);
+        }
+        return stream.str();
+    }
+
     template <typename T, size_t S> string bytes_to_hex(T (&data)[S])
     {
         vector<T> vec(begin(data), end(data));
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3f96141..a3572f6 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1110,8 +1110,8 @@ namespace electionguard
                     auto e = contest.get().getHashedElGamalCiphertext();
                     json extended_data = {
                       {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_hex(e->getData())},
-                      {"mac", bytes_to_hex(e->getMac())},
+                      {"data", bytes_to_padded_hex(e->getData())},
+                      {"mac", bytes_to_padded_hex(e->getMac())},
                     };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
@@ -1180,14 +1180,11 @@ namespace electionguard
                     auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
                     auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
 
-                    auto hashed_el_gamal_data_sanitized = sanitize_hex_string(hashed_el_gamal_data);
-                    auto hashed_el_gamal_mac_sanitized = sanitize_hex_string(hashed_el_gamal_mac);
-
                     auto deserializedHashedElGamal =
                       make_unique<electionguard::HashedElGamalCiphertext>(
                         ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data_sanitized),
-                        hex_to_bytes(hashed_el_gamal_mac_sanitized));
+                        hex_to_bytes(hashed_el_gamal_data),
+                        hex_to_bytes(hashed_el_gamal_mac));
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From efe2b711cd7f74efed18fc93a8074cffa7c901d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 10/36] fix: placeholder sequence orders follow 64-bit
 selection sequence orders

---
 src/electionguard/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e26e8fc..15b0bad 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1997,7 +1997,7 @@ namespace electionguard
 
             vector<unique_ptr<SelectionDescription>> placeholders;
             placeholders.reserve(contest.get().getNumberElected());
-            uint32_t maxSequenceOrder = 0;
+            uint64_t maxSequenceOrder = 0;
             for (const auto &selection : contest.get().getSelections()) {
                 auto sequenceOrder = selection.get().getSequenceOrder();
                 if (sequenceOrder > maxSequenceOrder) {
-- 
2.43.0


From fa56c8cc4b22a2abb525bf8cdd36ac497f05f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 11/36] fix: copying a contest description keeps its primary
 parties, votes allowed and subtitle

---
 src/electionguard/manifest.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 15b0bad..4c66f13 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1093,17 +1093,15 @@ namespace electionguard
                 _selections.push_back(make_unique<SelectionDescription>(*element));
             }
 
-            // TODO: handle optional values
-            if (ballotTitle != nullptr) {
-                auto _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
-                auto _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
-                return make_unique<ContestDescription::Impl>(
-                  object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
-                  votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections));
-            }
-            return make_unique<ContestDescription::Impl>(object_id, electoralDistrictId,
-                                                         sequenceOrder, voteVariation,
-                                                         numberElected, name, move(_selections));
+            auto _ballotTitle =
+              ballotTitle != nullptr ? make_unique<InternationalizedText>(*ballotTitle) : nullptr;
+            auto _ballotSubtitle = ballotSubtitle != nullptr
+                                     ? make_unique<InternationalizedText>(*ballotSubtitle)
+                                     : nullptr;
+            return make_unique<ContestDescription::Impl>(
+              object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
+              votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections),
+              primaryPartyIds);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 124f98dcca9e505250e7cd9f5e6a7cf5d95eff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 12/36] fix: copying an encrypted selection, contest or ballot
 allows its optional parts to be absent

---
 src/electionguard/ballot.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 234a6ec..571c4ea 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -173,9 +173,10 @@ namespace electionguard
         {
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
             auto _ciphertext = make_unique<ElGamalCiphertext>(*ciphertext);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<DisjunctiveChaumPedersenProof>(*proof);
+            auto _proof =
+              proof != nullptr ? make_unique<DisjunctiveChaumPedersenProof>(*proof) : nullptr;
             auto _extendedData =
               extendedData != nullptr ? make_unique<ElGamalCiphertext>(*extendedData) : nullptr;
 
@@ -550,11 +551,14 @@ namespace electionguard
             }
 
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _accumulation = make_unique<ElGamalCiphertext>(*ciphertextAccumulation);
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<ConstantChaumPedersenProof>(*proof);
-            auto _hashedElGamal = make_unique<HashedElGamalCiphertext>(*hashedElGamal);
+            auto _proof =
+              proof != nullptr ? make_unique<ConstantChaumPedersenProof>(*proof) : nullptr;
+            auto _hashedElGamal = hashedElGamal != nullptr
+                                    ? make_unique<HashedElGamalCiphertext>(*hashedElGamal)
+                                    : nullptr;
 
             return make_unique<CiphertextBallotContest::Impl>(
               object_id, sequenceOrder, move(_descriptionHash), move(_selections), move(_nonce),
@@ -930,7 +934,7 @@ namespace electionguard
             auto _manifestHash = make_unique<ElementModQ>(*manifestHash);
             auto _ballotCodeSeed = make_unique<ElementModQ>(*ballotCodeSeed);
             auto _ballotCode = make_unique<ElementModQ>(*ballotCode);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
             return make_unique<CiphertextBallot::Impl>(
               object_id, styleId, move(_manifestHash), move(_ballotCodeSeed), move(_contests),
-- 
2.43.0


From 2aa9282acbce4d984090f9a142ee09a4d24a51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 13/36] fix: verifying a contest without a proof fails instead
 of dereferencing null

---
 src/electionguard/ballot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 571c4ea..c732930 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -744,6 +744,7 @@ namespace electionguard
         }
 
         bool valid_proof =
+          proof_exists &&
           pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey, cryptoExtendedBaseHash);
 
         bool success = consistent_encryption_seed && consistent_crypto_hash && proof_exists &&
-- 
2.43.0


From f9155dd6f135455828a2bd98e07271aca4a9dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 14/36] fix: verifying a ballot reports an invalid proof even
 when identifiers coincide

Results were kept in a map by identifier, so a later valid proof replaced an earlier invalid one.
---
 src/electionguard/ballot.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index c732930..f65d687 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1081,12 +1081,15 @@ namespace electionguard
         for (const auto &contest : this->getContests()) {
             for (const auto &selection : contest.get().getSelections()) {
                 string key = contest.get().getObjectId() + '-' + selection.get().getObjectId();
-                validProofs[key] = selection.get().isValidEncryption(
+                bool isValidSelection = selection.get().isValidEncryption(
                   *selection.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+                // identifiers may coincide: an invalid proof must not be replaced by a valid one
+                validProofs.emplace(key, true).first->second &= isValidSelection;
             }
             string key = contest.get().getObjectId();
-            validProofs[key] = contest.get().isValidEncryption(
+            bool isValidContest = contest.get().isValidEncryption(
               *contest.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+            validProofs.emplace(key, true).first->second &= isValidContest;
         }
 
         bool isValid = true;
-- 
2.43.0


From babedf4419214cc2c541ab605bcd6076376632c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 15/36] fix: a ballot made from contests in any order verifies

The crypto hash was made in the given order but is recomputed in sequence order.
---
 src/electionguard/ballot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index f65d687..ad21268 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1029,6 +1029,13 @@ namespace electionguard
             contestsRefs.push_back(ref(*contest));
         }
 
+        // the contests are always hashed in sequence order
+        sort(contestsRefs.begin(), contestsRefs.end(),
+             [](const reference_wrapper<CiphertextBallotContest> left,
+                const reference_wrapper<CiphertextBallotContest> right) {
+                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+             });
+
         auto cryptoHash = makeCryptoHash(objectId, contestsRefs, manifestHash);
         auto ballotTimestamp = timestamp == 0 ? getSystemTimestamp() : timestamp;
         if (!ballotCodeSeed) {
-- 
2.43.0


From ee5c44f124918c90069af924c00394e4c472c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:06 +0000
Subject: [PATCH 16/36] fix: a ballot style naming a geopolitical unit twice
 listed its contests twice

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 4c66f13..c877aaf 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1943,6 +1943,7 @@ namespace electionguard
             for (const auto &gpUnitId : style->getGeopoliticalUnitIds()) {
                 if (reference->getElectoralDistrictId() == gpUnitId) {
                     contests.push_back(ref(*reference));
+                    break;
                 }
             }
         }
-- 
2.43.0


From 78e5265393b26fd61322fa647b705161e4435d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:07 +0000
Subject: [PATCH 17/36] fix: compact encryption of a ballot with an unknown
 style dereferenced null

---
 src/electionguard/encrypt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index e6aa92a..0daf445 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -233,6 +233,9 @@ namespace electionguard
                                                      const InternalManifest &manifest)
     {
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
 
         vector<unique_ptr<PlaintextBallotContest>> contests;
         // loop through the contests for the ballot style
-- 
2.43.0


From 0c1653246213967fe6bc762bc45a71d4af967da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:28 +0000
Subject: [PATCH 18/36] fix: copying a party without a name no longer gives the
 copy an empty name

---
 src/electionguard/manifest.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index c877aaf..4b45286 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -736,7 +736,8 @@ namespace electionguard
                 return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color,
                                                 logoUri);
             }
-            return make_unique<Party::Impl>(object_id, abbreviation, color, logoUri);
+            return make_unique<Party::Impl>(object_id, unique_ptr<InternationalizedText>(),
+                                            abbreviation, color, logoUri);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 1d6e0db86de4e08f84146010c5fa19ca0a829418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:28 +0000
Subject: [PATCH 19/36] fix: assigning a contest description with placeholders
 also assigns the description

---
 src/electionguard/manifest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 4b45286..b505494 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1391,8 +1391,7 @@ namespace electionguard
     ContestDescriptionWithPlaceholders &
     ContestDescriptionWithPlaceholders::operator=(ContestDescriptionWithPlaceholders other)
     {
-        // TODO: swap the base as well via cast?
-        //(ContestDescription) this = (ContestDescription)other;
+        ContestDescription::operator=(static_cast<const ContestDescription &>(other));
         swap(pimpl, other.pimpl);
         return *this;
     }
-- 
2.43.0


From cc1fe7713d4ad10111c27cd10a7c0077207e9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:28 +0000
Subject: [PATCH 20/36] fix: cloning an unchecked ElementModQ copies it instead
 of throwing

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index ec1a367..a117bdf 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -419,7 +419,7 @@ namespace electionguard
 
     std::unique_ptr<ElementModQ> ElementModQ::clone() const
     {
-        return make_unique<ElementModQ>(pimpl->data);
+        return make_unique<ElementModQ>(pimpl->data, true);
     }
 
 #pragma endregion
-- 
2.43.0


From 7e83b8526604664cf034d9f9785e3194de30e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 21/36] fix: name the approval vote variation

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index b505494..f2b2939 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -129,6 +129,7 @@ namespace electionguard
     const map<VoteVariationType, const string> _vote_variation_type<T>::_map = {
       {VoteVariationType::unknown, "unknown"},
       {VoteVariationType::one_of_m, "one_of_m"},
+      {VoteVariationType::approval, "approval"},
       {VoteVariationType::borda, "borda"},
       {VoteVariationType::cumulative, "cumulative"},
       {VoteVariationType::majority, "majority"},
-- 
2.43.0


From e849939ec290d6be64c2c5587ddf4af7e728a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 22/36] fix: hash a contest with a title but no subtitle

---
 src/electionguard/manifest.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index f2b2939..886bbbf 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1116,11 +1116,14 @@ namespace electionguard
 
             // TODO: handle optional values
             if (ballotTitle != nullptr) {
+                CryptoHashableType subtitle = nullptr;
+                if (ballotSubtitle != nullptr) {
+                    subtitle = ref<CryptoHashable>(*ballotSubtitle);
+                }
                 auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
                                         getVoteVariationTypeString(voteVariation),
-                                        ref<CryptoHashable>(*ballotTitle),
-                                        ref<CryptoHashable>(*ballotSubtitle), name, numberElected,
-                                        votesAllowed, selectionRefs});
+                                        ref<CryptoHashable>(*ballotTitle), subtitle, name,
+                                        numberElected, votesAllowed, selectionRefs});
                 Log::trace("ContestDescription", hash.get());
                 return hash;
             }
-- 
2.43.0


From 3f1db78880c8367e5becdc8b8a1fb209e4785f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 23/36] fix: hash a manifest with a name but no contact
 information

---
 src/electionguard/manifest.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 886bbbf..d4f8e32 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1535,11 +1535,14 @@ namespace electionguard
                 return hash;
             }
 
-            auto hash =
-              hash_elems({electionScopeId, getElectionTypeString(type),
-                          timePointToIsoString(startDate), timePointToIsoString(endDate),
-                          ref<CryptoHashable>(*name), ref<CryptoHashable>(*contactInformation),
-                          geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
+            CryptoHashableType contact = nullptr;
+            if (contactInformation != nullptr) {
+                contact = ref<CryptoHashable>(*contactInformation);
+            }
+            auto hash = hash_elems(
+              {electionScopeId, getElectionTypeString(type), timePointToIsoString(startDate),
+               timePointToIsoString(endDate), ref<CryptoHashable>(*name), contact,
+               geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
 
             Log::trace("Manifest", hash->toHex());
             return hash;
-- 
2.43.0


From a0f5c0e23f16e4b2b2de3b11dd368636666b0e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 24/36] fix: read the name and the contact information of a
 manifest independently

---
 src/electionguard/serialize.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index a3572f6..78f162d 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -550,12 +550,15 @@ namespace electionguard
                 auto contests = contestDescriptionsFromJson(j["contests"]);
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
 
-                // TODO: just a stub for now.
-                // we need to handle all of the otpional serilization cases.
-                if (j.contains("name") && !j["name"].is_null()) {
-                    auto name = internationalizedTextFromJson(j["name"]);
-                    auto contactInformation = contactInformationFromJson(j["contact_information"]);
-
+                auto name = j.contains("name") && !j["name"].is_null()
+                              ? internationalizedTextFromJson(j["name"])
+                              : nullptr;
+                auto contactInformation =
+                  j.contains("contact_information") && !j["contact_information"].is_null()
+                    ? contactInformationFromJson(j["contact_information"])
+                    : nullptr;
+
+                if (name != nullptr || contactInformation != nullptr) {
                     return make_unique<electionguard::Manifest>(
                       electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
                       timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-- 
2.43.0


From 9eae6ba3dbba239f5c6f8c3d372852103ee9c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 25/36] fix: an empty contact information is written as an
 empty object

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 78f162d..4ac941b 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -79,7 +79,7 @@ namespace electionguard
 
     static json contactInformationToJson(const ContactInformation &serializable)
     {
-        json serialized = {};
+        json serialized = json::object();
 
         if (!serializable.getName().empty()) {
             serialized["name"] = serializable.getName();
-- 
2.43.0


From 32fd4ee941f2c6688bee59cfb0817de206a0ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 26/36] fix: a party or candidate without a name is read back
 without a name

---
 src/electionguard/serialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 4ac941b..ae9e453 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -228,7 +228,7 @@ namespace electionguard
         }
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson(json("{}"));
+                      : nullptr;
 
         return make_unique<Party>(j["object_id"].get<string>(), move(name), abbreviation, color,
                                   logo_uri);
@@ -282,7 +282,7 @@ namespace electionguard
         auto objectId = j["object_id"].get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson("{}");
+                      : nullptr;
         bool isWriteIn = j.contains("is_write_in") && !j["is_write_in"].is_null()
                            ? j["is_write_in"].get<bool>()
                            : false;
-- 
2.43.0


From 24ba6cf433759f5e62045a34b6388e4f5314d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 27/36] fix: write the votes allowed of a contest also when
 they are zero

---
 src/electionguard/serialize.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index ae9e453..7c9c71a 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -421,11 +421,7 @@ namespace electionguard
         serialized["sequence_order"] = serializable.getSequenceOrder();
         serialized["vote_variation"] = getVoteVariationTypeString(serializable.getVoteVariation());
         serialized["number_elected"] = serializable.getNumberElected();
-
-        if (serializable.getVotesAllowed() > 0) {
-            serialized["votes_allowed"] = serializable.getVotesAllowed();
-        }
-
+        serialized["votes_allowed"] = serializable.getVotesAllowed();
         serialized["name"] = serializable.getName();
 
         if (serializable.getBallotTitle() != nullptr) {
-- 
2.43.0


From 61e2aa522f8d874a3a480eadc8901b49e5e9d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 28/36] fix: the titles and votes allowed of internal manifest
 contests survive serialization

---
 src/electionguard/serialize.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 7c9c71a..ad09cc6 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -628,14 +628,13 @@ namespace electionguard
                       {"ballot_placeholders", placeholders}};
 
                     if (contest.get().getBallotTitle() != nullptr) {
-                        contest_json["ballot_title"] = {
-                          {"text", internationalizedTextToJson(*contest.get().getBallotTitle())}};
+                        contest_json["ballot_title"] =
+                          internationalizedTextToJson(*contest.get().getBallotTitle());
                     }
 
                     if (contest.get().getBallotSubtitle() != nullptr) {
-                        contest_json["ballot_subtitle"] = {
-                          {"text",
-                           internationalizedTextToJson(*contest.get().getBallotSubtitle())}};
+                        contest_json["ballot_subtitle"] =
+                          internationalizedTextToJson(*contest.get().getBallotSubtitle());
                     }
 
                     contests.push_back(contest_json);
@@ -675,13 +674,18 @@ namespace electionguard
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    // TODO: ust a stub for now.
-                    // we need to handle all of the otpional serilization cases.
-                    if (contest.contains("ballot_title") && !contest["ballot_title"].is_null()) {
+                    if (contest.contains("votes_allowed") &&
+                        !contest["votes_allowed"].is_null()) {
                         auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
-                        auto ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
-                        auto ballotSubtitle =
-                          internationalizedTextFromJson(contest["ballot_subtitle"]);
+                        auto ballotTitle =
+                          contest.contains("ballot_title") && !contest["ballot_title"].is_null()
+                            ? internationalizedTextFromJson(contest["ballot_title"])
+                            : nullptr;
+                        auto ballotSubtitle = contest.contains("ballot_subtitle") &&
+                                                  !contest["ballot_subtitle"].is_null()
+                                                ? internationalizedTextFromJson(
+                                                    contest["ballot_subtitle"])
+                                                : nullptr;
 
                         contestDescriptions.push_back(
                           make_unique<ContestDescriptionWithPlaceholders>(
-- 
2.43.0


From 5b1b1f687101d6d8a010aad59e1d9f786b7a1877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 29/36] fix: write-ins and empty selections of a compact ballot
 survive serialization

---
 src/electionguard/serialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index ad09cc6..64e5210 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1021,11 +1021,11 @@ namespace electionguard
 
                 vector<string> writeins;
                 for (auto &writein_json : in_writeins) {
-                    writeins.push_back(writein_json.dump());
+                    writeins.push_back(writein_json.get<string>());
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-                  object_id, style_id, move(selections), move(writeins));
+                  object_id, style_id, move(votes), move(writeins));
             }
 
           public:
-- 
2.43.0


From 27e7e21f16cd4f8730a1201f8a6b6d16f17f919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:39 +0000
Subject: [PATCH 30/36] fix: the default name of a contact information is empty
 instead of a null pointer

---
 include/electionguard/manifest.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 733b693..be00ff0 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -252,14 +252,14 @@ namespace electionguard
         ContactInformation(ContactInformation &&other);
         explicit ContactInformation(std::string name);
         explicit ContactInformation(std::vector<std::string> addressLine,
-                                    std::string name = nullptr);
+                                    std::string name = std::string());
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = std::string());
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> email,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = std::string());
         ~ContactInformation();
 
         ContactInformation &operator=(ContactInformation other);
-- 
2.43.0


From 7fd57ff491fd8fe08f6b9957fb07ab7e6bf40046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:06 +0000
Subject: [PATCH 31/36] fix: contact information accessors of the C interface
 treat the handle as contact information

eg_contact_information_get_name and eg_contact_information_crypto_hash
cast the handle to other classes, so they returned success with a value
that is not the contact information's (or crashed).
---
 src/electionguard/facades/manifest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 5d9ecc0..2f56b67 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -396,7 +396,7 @@ eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information
                                                           const char **out_name)
 {
     try {
-        auto result = AS_TYPE(GeopoliticalUnit, handle)->getName();
+        auto result = AS_TYPE(ContactInformation, handle)->getName();
         *out_name = dynamicCopy(result);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -410,7 +410,7 @@ eg_electionguard_status_t eg_contact_information_crypto_hash(eg_contact_informat
                                                              eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
+        auto result = AS_TYPE(ContactInformation, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 77bd273ca2a56901869093d84fc9253de68e0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:06 +0000
Subject: [PATCH 32/36] fix: eg_candidate_crypto_hash hashes the candidate, not
 a party

---
 src/electionguard/facades/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 2f56b67..a0085de 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -965,7 +965,7 @@ eg_electionguard_status_t eg_candidate_crypto_hash(eg_candidate_t *handle,
                                                    eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(Party, handle)->crypto_hash();
+        auto result = AS_TYPE(Candidate, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From bf46e9b9b8e073cea9b7b308f82c2235163ff98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:06 +0000
Subject: [PATCH 33/36] fix: context made from hex with extended data keeps the
 extended data

---
 src/electionguard/facades/election.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/facades/election.cpp b/src/electionguard/facades/election.cpp
index e2aa39e..a416717 100644
--- a/src/electionguard/facades/election.cpp
+++ b/src/electionguard/facades/election.cpp
@@ -328,7 +328,8 @@ eg_electionguard_status_t eg_ciphertext_election_context_make_from_hex_with_exte
         }
 
         auto context = CiphertextElectionContext::make(
-          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash);
+          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash,
+          extendedData);
         *out_handle = AS_TYPE(eg_ciphertext_election_context_t, context.release());
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From 7f52e788acd855acaa97f505c17894c454354bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:07 +0000
Subject: [PATCH 34/36] fix: eg_plaintext_ballot_contest_is_valid is true for a
 valid contest, not for an invalid one

---
 src/electionguard/facades/ballot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 58a8e32..00c9625 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -427,8 +427,8 @@ bool eg_plaintext_ballot_contest_is_valid(eg_plaintext_ballot_contest_t *handle,
 {
     try {
         return AS_TYPE(PlaintextBallotContest, handle)
-          ->isValid(string(in_expected_object_id), in_expected_num_selections,
-                    in_expected_num_elected, in_votes_allowed);
+                 ->isValid(string(in_expected_object_id), in_expected_num_selections,
+                           in_expected_num_elected, in_votes_allowed) == electionguard::SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_plaintext_ballot_contest_is_valid", e);
         return false;
-- 
2.43.0


From a497a3f023f14f5a712afe34ec1a0e8c6d93d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:33 +0000
Subject: [PATCH 35/36] fix: handles of the C interface have the type of the
 object they refer to

---
 include/electionguard/manifest.h       |  9 +++++----
 src/electionguard/facades/manifest.cpp | 15 ++++++++-------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index a600e62..1e1aabb 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -201,7 +201,8 @@ EG_API eg_electionguard_status_t eg_internationalized_text_get_text_at_index(
  * A hash representation of the object. Caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t
-eg_intertnationalized_text_crypto_hash(eg_language_t *handle, eg_element_mod_q_t **out_crypto_hash);
+eg_intertnationalized_text_crypto_hash(eg_internationalized_text_t *handle,
+                                       eg_element_mod_q_t **out_crypto_hash);
 
 #endif
 
@@ -269,7 +270,7 @@ EG_API uint64_t eg_contact_information_get_email_line_size(eg_contact_informatio
  */
 EG_API eg_electionguard_status_t
 eg_contact_information_get_email_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_address_ref);
+                                               eg_annotated_string_t **out_address_ref);
 
 /**
  * Get the Size of the phone line collection
@@ -289,7 +290,7 @@ EG_API uint64_t eg_contact_information_get_phone_line_size(eg_contact_informatio
  *                          The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_contact_information_get_phone_line_at_index(
-  eg_contact_information_t *handle, uint64_t in_index, eg_internationalized_text_t **out_phone_ref);
+  eg_contact_information_t *handle, uint64_t in_index, eg_annotated_string_t **out_phone_ref);
 
 EG_API eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information_t *handle,
                                                                  const char **out_name);
@@ -726,7 +727,7 @@ EG_API uint64_t eg_contest_description_with_placeholders_get_placeholders_size(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_get_placeholder_at_index(
   eg_contest_description_with_placeholders_t *handle, uint64_t in_index,
-  eg_contest_description_with_placeholders_t **out_placeholder_ref);
+  eg_selection_description_t **out_placeholder_ref);
 
 EG_API bool eg_contest_description_with_placeholders_is_placeholder(
   eg_contest_description_with_placeholders_t *handle, eg_selection_description_t *in_selection);
diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index a0085de..9d08951 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -244,7 +244,8 @@ eg_internationalized_text_get_text_at_index(eg_internationalized_text_t *handle,
 }
 
 eg_electionguard_status_t
-eg_intertnationalized_text_crypto_hash(eg_language_t *handle, eg_element_mod_q_t **out_crypto_hash)
+eg_intertnationalized_text_crypto_hash(eg_internationalized_text_t *handle,
+                                       eg_element_mod_q_t **out_crypto_hash)
 {
     try {
         auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
@@ -355,13 +356,13 @@ uint64_t eg_contact_information_get_email_line_size(eg_contact_information_t *ha
 
 eg_electionguard_status_t
 eg_contact_information_get_email_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_address_ref)
+                                               eg_annotated_string_t **out_address_ref)
 {
     try {
         auto collection = AS_TYPE(ContactInformation, handle)->getEmail();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_address_ref = AS_TYPE(eg_internationalized_text_t, reference);
+        *out_address_ref = AS_TYPE(eg_annotated_string_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -377,13 +378,13 @@ uint64_t eg_contact_information_get_phone_line_size(eg_contact_information_t *ha
 
 eg_electionguard_status_t
 eg_contact_information_get_phone_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_phone_ref)
+                                               eg_annotated_string_t **out_phone_ref)
 {
     try {
         auto collection = AS_TYPE(ContactInformation, handle)->getPhone();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_phone_ref = AS_TYPE(eg_internationalized_text_t, reference);
+        *out_phone_ref = AS_TYPE(eg_annotated_string_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -1578,13 +1579,13 @@ uint64_t eg_contest_description_with_placeholders_get_placeholders_size(
 
 eg_electionguard_status_t eg_contest_description_with_placeholders_get_placeholder_at_index(
   eg_contest_description_with_placeholders_t *handle, uint64_t in_index,
-  eg_contest_description_with_placeholders_t **out_placeholder_ref)
+  eg_selection_description_t **out_placeholder_ref)
 {
     try {
         auto collection = AS_TYPE(ContestDescriptionWithPlaceholders, handle)->getPlaceholders();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_placeholder_ref = AS_TYPE(eg_contest_description_with_placeholders_t, reference);
+        *out_placeholder_ref = AS_TYPE(eg_selection_description_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 2c7743a77d4d5c4dd9d87f01f5311f608fcf7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:47 +0000
Subject: [PATCH 36/36] fix: entry points are defined with the parameters their
 header declares, so that C programs can link them

---
 include/electionguard/ballot.h       | 18 ++++++++++++++----
 include/electionguard/encrypt.h      |  2 +-
 include/electionguard/manifest.h     |  9 ++++++---
 src/electionguard/facades/ballot.cpp | 15 ++++++++-------
 4 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 99fae7c..b98ebb0 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -90,6 +90,10 @@ EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_extended
   const char *in_extended_data_value, uint64_t in_extended_data_length,
   eg_plaintext_ballot_selection_t **out_handle);
 
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_write_in(
+  const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
+  const char *in_write_in, eg_plaintext_ballot_selection_t **out_handle);
+
 EG_API eg_electionguard_status_t
 eg_plaintext_ballot_selection_free(eg_plaintext_ballot_selection_t *handle);
 
@@ -126,6 +130,12 @@ eg_plaintext_ballot_selection_get_is_placeholder(eg_plaintext_ballot_selection_t
 EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_extended_data(
   eg_plaintext_ballot_selection_t *handle, eg_extended_data_t **out_extended_data_ref);
 
+/**
+ * Get the text of the write-in candidate. The caller is responsible for freeing the string.
+ */
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_write_in(
+  eg_plaintext_ballot_selection_t *handle, char **out_write_in);
+
 /**
  * Given a PlaintextBallotSelection validates that the object matches an expected object
  * and that the plaintext value can resolve to a valid representation
@@ -431,7 +441,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_crypto_hash(
  *                           The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
-  eg_ciphertext_ballot_contest_t *handle, eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref);
+  eg_ciphertext_ballot_contest_t *handle, eg_constant_chaum_pedersen_proof_t **out_proof_ref);
 
 /**
  * Given an encrypted Ballotcontest, generates a hash, suitable for rolling up
@@ -446,7 +456,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
  *                             The caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t *in_encryption_seed,
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t *in_encryption_seed,
   eg_element_mod_q_t **out_crypto_hash);
 
 // TODO: eg_ciphertext_ballot_contest_make
@@ -461,7 +471,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
  *                           The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
 
 /**
  * Add the individual ballot_selections `message` fields together, suitable for use
@@ -471,7 +481,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
  *                                         The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_elgamal_accumulate(
-  eg_ciphertext_ballot_selection_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
+  eg_ciphertext_ballot_contest_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
 
 /**
  * Given an encrypted BallotContest, validates the encryption state against a specific seed hash and public key
diff --git a/include/electionguard/encrypt.h b/include/electionguard/encrypt.h
index eb953ab..a54612f 100644
--- a/include/electionguard/encrypt.h
+++ b/include/electionguard/encrypt.h
@@ -161,7 +161,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * @param[out] out_handle a handle to an `eg_ciphertext_ballot_contest_t`. Caller is responsible for lifecycle.
 */
 EG_API eg_electionguard_status_t eg_encrypt_contest(
-  eg_plaintext_ballot_contest_t *in_plaintext,
+  eg_plaintext_ballot_contest_t *in_plaintext, eg_internal_manifest_t *in_manifest,
   eg_contest_description_with_placeholders_t *in_description, eg_element_mod_p_t *in_public_key,
   eg_element_mod_q_t *in_crypto_extended_base_hash, eg_element_mod_q_t *in_nonce_seed,
   bool in_should_verify_proofs, eg_ciphertext_ballot_contest_t **out_handle);
diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index 1e1aabb..3e0d2a9 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -596,7 +596,8 @@ EG_API eg_electionguard_status_t eg_contest_description_new_with_parties(
 
 EG_API eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
@@ -695,7 +696,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_title(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   eg_selection_description_t *in_placeholder_selections[], uint64_t in_placeholder_selections_size,
@@ -712,7 +714,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_wi
 EG_API eg_electionguard_status_t
 eg_contest_description_with_placeholders_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 00c9625..6ba6311 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -555,12 +555,12 @@ eg_ciphertext_ballot_contest_get_crypto_hash(eg_ciphertext_ballot_contest_t *han
 }
 
 eg_electionguard_status_t
-eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_selection_t *handle,
-                                       eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref)
+eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_contest_t *handle,
+                                       eg_constant_chaum_pedersen_proof_t **out_proof_ref)
 {
     try {
         auto *reference = AS_TYPE(CiphertextBallotContest, handle)->getProof();
-        *out_proof_ref = AS_TYPE(eg_disjunctive_chaum_pedersen_proof_t, reference);
+        *out_proof_ref = AS_TYPE(eg_constant_chaum_pedersen_proof_t, reference);
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_ciphertext_ballot_contest_get_proof", e);
@@ -929,14 +929,15 @@ eg_ciphertext_ballot_get_ballot_code(eg_ciphertext_ballot_t *handle,
     }
 }
 
-uint64_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *ciphertext)
+eg_electionguard_status_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *handle,
+                                                             uint64_t *out_timestamp)
 {
     try {
-        auto result = AS_TYPE(CiphertextBallot, ciphertext)->getTimestamp();
-        return result;
+        *out_timestamp = AS_TYPE(CiphertextBallot, handle)->getTimestamp();
+        return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error(":eg_ciphertext_ballot_get_timestamp", e);
-        return 0;
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
     }
 }
 
-- 
2.43.0

