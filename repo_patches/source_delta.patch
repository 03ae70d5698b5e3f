From fffbf4e704b8605b7abbc53e6b4dd821c84c6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 01/27] fix: guard the recovery checkpoint with its mutex in
 every access

The dual-masked item counters are updated from two concurrent ECDH tasks
while a third reads the checkpoint, but only the file write was locked.
---
 psi/checkpoint/recovery.cc | 19 ++++++++++++++-----
 psi/checkpoint/recovery.h  | 10 ++++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 840e5bf..9ace9a9 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -81,8 +81,6 @@ RecoveryManager::RecoveryManager(const std::string& folder_path)
 }
 
 void RecoveryManager::SaveCheckpointFile() {
-  std::unique_lock<std::mutex> lock(mutex_);
-
   std::string checkpoint_json;
   google::protobuf::util::JsonPrintOptions json_print_options;
   json_print_options.preserve_proto_field_names = true;
@@ -99,6 +97,8 @@ void RecoveryManager::SaveCheckpointFile() {
 void RecoveryManager::MarkInitEnd(
     const v2::PsiConfig& config,
     const std::vector<uint8_t>& input_hash_digest) {
+  std::lock_guard<std::mutex> lock(mutex_);
+
   if (checkpoint_.stage() != v2::RecoveryCheckpoint::STAGE_UNSPECIFIED) {
     // Check whether config and input_hash_digest match the previous record.
     YACL_ENFORCE(::google::protobuf::util::MessageDifferencer::Equals(
@@ -122,6 +122,8 @@ void RecoveryManager::MarkInitEnd(
 void RecoveryManager::MarkPreProcessEnd(
     const std::shared_ptr<IEccCryptor>& cryptor) {
   if (cryptor) {
+    std::lock_guard<std::mutex> lock(mutex_);
+
     if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_PRE_PROCESS_END) {
       checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_PRE_PROCESS_END);
 
@@ -152,11 +154,12 @@ bool RecoveryManager::MarkOnlineStart(
     YACL_ENFORCE_EQ(lctx->WorldSize(), 2U);
 
     v2::InternalRecoveryRecord record;
+    const v2::RecoveryCheckpoint current = checkpoint();
 
-    record.set_stage(checkpoint_.stage());
+    record.set_stage(current.stage());
     record.set_ecdh_dual_masked_item_peer_count(
-        checkpoint_.ecdh_dual_masked_item_peer_count());
-    record.set_parsed_bucket_count(checkpoint_.parsed_bucket_count());
+        current.ecdh_dual_masked_item_peer_count());
+    record.set_parsed_bucket_count(current.parsed_bucket_count());
     std::string record_str;
     YACL_ENFORCE(record.SerializeToString(&record_str));
 
@@ -200,6 +203,7 @@ bool RecoveryManager::MarkOnlineStart(
       "{}",
       parsed_bucket_count_from_peer_);
 
+  std::lock_guard<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_ONLINE_START) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
 
@@ -211,6 +215,7 @@ bool RecoveryManager::MarkOnlineStart(
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
+  std::lock_guard<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_self_count(cnt);
 
@@ -221,6 +226,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
 void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
   SPDLOG_INFO("RecoveryManager::UpdateEcdhDualMaskedItemPeerCount, cnt = {}",
               cnt);
+  std::lock_guard<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_peer_count(cnt);
 
@@ -230,6 +236,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
 
 void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
   SPDLOG_INFO("RecoveryManager::UpdateParsedBucketCount, cnt = {}", cnt);
+  std::lock_guard<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_parsed_bucket_count(cnt);
 
@@ -238,6 +245,7 @@ void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
 }
 
 void RecoveryManager::MarkOnlineEnd() {
+  std::lock_guard<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_ONLINE_END) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_END);
 
@@ -247,6 +255,7 @@ void RecoveryManager::MarkOnlineEnd() {
 }
 
 void RecoveryManager::MarkPostProcessEnd() {
+  std::lock_guard<std::mutex> lock(mutex_);
   if (checkpoint_.stage() < v2::RecoveryCheckpoint::STAGE_POST_PROCESS_END) {
     checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_POST_PROCESS_END);
 
diff --git a/psi/checkpoint/recovery.h b/psi/checkpoint/recovery.h
index d61f220..9e346db 100644
--- a/psi/checkpoint/recovery.h
+++ b/psi/checkpoint/recovery.h
@@ -17,6 +17,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <filesystem>
+#include <mutex>
 #include <string>
 
 #include "yacl/link/link.h"
@@ -94,12 +95,17 @@ class RecoveryManager {
     return parsed_bucket_count_from_peer_;
   }
 
-  v2::RecoveryCheckpoint checkpoint() const { return checkpoint_; }
+  v2::RecoveryCheckpoint checkpoint() const {
+    std::lock_guard<std::mutex> lock(mutex_);
+    return checkpoint_;
+  }
 
  private:
+  // mutex_ must be held by the caller.
   void SaveCheckpointFile();
 
-  std::mutex mutex_;
+  // Protects checkpoint_ and the checkpoint file.
+  mutable std::mutex mutex_;
 
   std::filesystem::path folder_path_;
 
-- 
2.43.0


From 51cdefc5d5812671fa424cb0ebfad1cbc5232031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 02/27] fix: look up operator creators under the factory mutex

Create() used operator[] without the lock, so concurrent callers could
rehash the map (and an unknown type was inserted as an empty creator).
---
 psi/legacy/factory.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/psi/legacy/factory.h b/psi/legacy/factory.h
index ace8c7b..27663bf 100644
--- a/psi/legacy/factory.h
+++ b/psi/legacy/factory.h
@@ -49,7 +49,14 @@ class OperatorFactory {
       const MemoryPsiConfig& config,
       const std::shared_ptr<yacl::link::Context>& lctx) {
     std::string type = PsiType_Name(config.psi_type());
-    auto creator = creators_[type];
+    OperatorCreator creator;
+    {
+      std::lock_guard<std::mutex> lock(mutex_);
+      auto it = creators_.find(type);
+      if (it != creators_.end()) {
+        creator = it->second;
+      }
+    }
     YACL_ENFORCE(creator, "no creator registered for operator type: {}", type);
     return creator(config, lctx);
   }
-- 
2.43.0


From dd40c3bbf7a5f55f582f7d112ecbf0fa482f50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 03/27] fix: make the CSV row counter safe to read while
 prefetching

row_cnt() is read by the consumer while the asynchronous prefetch of the
next batch increments it.
---
 psi/utils/arrow_csv_batch_provider.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psi/utils/arrow_csv_batch_provider.h b/psi/utils/arrow_csv_batch_provider.h
index a0392d1..3a7dda2 100644
--- a/psi/utils/arrow_csv_batch_provider.h
+++ b/psi/utils/arrow_csv_batch_provider.h
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <cstddef>
 #include <future>
 #include <mutex>
@@ -42,7 +43,7 @@ class ArrowCsvBatchProvider : public IBasicBatchProvider,
   std::pair<std::vector<std::string>, std::vector<std::string>>
   ReadNextLabeledBatch() override;
 
-  [[nodiscard]] size_t row_cnt() const { return row_cnt_; }
+  [[nodiscard]] size_t row_cnt() const { return row_cnt_.load(); }
 
   [[nodiscard]] size_t batch_size() const override { return batch_size_; }
 
@@ -77,7 +78,7 @@ class ArrowCsvBatchProvider : public IBasicBatchProvider,
   bool reach_eof_ = false;
   int64_t idx_in_batch_ = 0;
   std::shared_ptr<arrow::RecordBatch> buffer_batch_;
-  size_t row_cnt_ = 0;
+  std::atomic_size_t row_cnt_ = 0;
   std::vector<std::shared_ptr<arrow::StringArray>> arrays_;
 };
 
-- 
2.43.0


From d950626c5698c737479b461ea954604c14ff1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 04/27] fix: keep composite progress within its weights

---
 psi/utils/progress.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/psi/utils/progress.cc b/psi/utils/progress.cc
index 65faf42..59f93bc 100644
--- a/psi/utils/progress.cc
+++ b/psi/utils/progress.cc
@@ -69,16 +69,22 @@ Progress::Data Progress::Get() {
 
   std::shared_lock r_lock(rw_mutex_);
 
+  // Sub progresses beyond the configured weights have weight 1.
+  auto weights = weights_;
+  if (weights.size() < sub_progresses_.size()) {
+    weights.resize(sub_progresses_.size(), 1);
+  }
+
   size_t total_weight =
-      std::accumulate(weights_.begin(), weights_.end(), static_cast<size_t>(0));
+      std::accumulate(weights.begin(), weights.end(), static_cast<size_t>(0));
   size_t total_percent = 0;
   Data out;
 
   std::string sub_desc;
-  out.total = weights_.size();
+  out.total = weights.size();
   for (size_t i = 0; i < sub_progresses_.size(); i++) {
     auto sub_data = sub_progresses_[i]->Get();
-    total_percent += weights_[i] * sub_data.percentage;
+    total_percent += weights[i] * sub_data.percentage;
 
     out.total--;
     out.total += sub_data.total;
-- 
2.43.0


From 7788a61c713f8230659f1305c05b32cad9810dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 05/27] fix: leave released C buffers empty so that releasing
 them again is harmless

---
 psi/wrapper/apsi/api/wrapper_common.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psi/wrapper/apsi/api/wrapper_common.h b/psi/wrapper/apsi/api/wrapper_common.h
index d3dbdfa..e6ed1c8 100644
--- a/psi/wrapper/apsi/api/wrapper_common.h
+++ b/psi/wrapper/apsi/api/wrapper_common.h
@@ -34,6 +34,7 @@ struct CStringArray {
 
 inline void FreeCString(CString *cstr) {
   free(cstr->data);
+  cstr->data = nullptr;
   cstr->size = 0;
 }
 
@@ -42,6 +43,7 @@ inline void FreeCStringArray(CStringArray *array) {
     free(array->data[i].data);
   }
   free(array->data);
+  array->data = nullptr;
   array->size = 0;
 }
 }
\ No newline at end of file
-- 
2.43.0


From bda193909c10fdb6f37df9bb9e3a75f79d3eed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 06/27] fix: unbalanced PSI reports -1 to a party that does not
 obtain the result

---
 psi/algorithm/ecdh/ub_psi/client.cc | 2 ++
 psi/algorithm/ecdh/ub_psi/server.cc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index 69a9da8..c1a1f28 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -136,6 +136,8 @@ void EcdhUbPsiClient::Online() {
 
       join_processor_->GenerateResult(peer_ec_point_store->PeerCount() -
                                       stat.peer_intersection_count);
+    } else {
+      report_.set_intersection_count(-1);
     }
   });
 }
diff --git a/psi/algorithm/ecdh/ub_psi/server.cc b/psi/algorithm/ecdh/ub_psi/server.cc
index 50d0282..87ecc44 100644
--- a/psi/algorithm/ecdh/ub_psi/server.cc
+++ b/psi/algorithm/ecdh/ub_psi/server.cc
@@ -176,6 +176,7 @@ void EcdhUbPsiServer::Online() {
     }
 
     if (!config_.server_get_result()) {
+      report_.set_intersection_count(-1);
       return;
     }
 
-- 
2.43.0


From c3e458e7a6ec5181c9f9b4e094c5e7f8c0b4a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 07/27] fix: replace the recovery checkpoint file atomically
 and check the write

---
 psi/checkpoint/recovery.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 9ace9a9..0ad6471 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -88,10 +88,18 @@ void RecoveryManager::SaveCheckpointFile() {
                    checkpoint_, &checkpoint_json, json_print_options)
                    .ok());
 
-  std::ofstream file;
-  file.open(checkpoint_file_path_);
+  // Write a new file and move it into place: a crash must not leave a truncated
+  // checkpoint behind.
+  std::filesystem::path tmp_path = checkpoint_file_path_;
+  tmp_path += ".tmp";
+
+  std::ofstream file(tmp_path);
   file << checkpoint_json;
   file.close();
+  YACL_ENFORCE(!file.fail(), "failed to write checkpoint file {}",
+               tmp_path.string());
+
+  std::filesystem::rename(tmp_path, checkpoint_file_path_);
 }
 
 void RecoveryManager::MarkInitEnd(
-- 
2.43.0


From 082662cea235bb7ed4f4fc14cb218fa21b411d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:15 +0000
Subject: [PATCH 08/27] fix: resumed ECDH PSI keeps duplicate counts aligned
 with the remaining items

---
 psi/algorithm/ecdh/ecdh_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index e96b38e..78b7633 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -81,12 +81,12 @@ void EcdhPsiContext::MaskSelf(
       batch_items = std::vector<std::string>(
           read_batch_items.begin() + processed_item_cnt,
           read_batch_items.end());
-      processed_item_cnt = 0;
       for (auto [index, cnt] : item_cnt) {
         if (index >= processed_item_cnt) {
           duplicate_item_cnt[index - processed_item_cnt] = cnt;
         }
       }
+      processed_item_cnt = 0;
     }
   }
 
-- 
2.43.0


From 5223e2083111ca5a93b52b10c0307cf3c55e5b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 09/27] fix: report the Elligator2 curve type in the curve
 check between the parties

---
 psi/cryptor/ipp_ecc_cryptor.h           | 5 +++++
 psi/cryptor/sodium_curve25519_cryptor.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/psi/cryptor/ipp_ecc_cryptor.h b/psi/cryptor/ipp_ecc_cryptor.h
index 0645ca5..f0fa23a 100644
--- a/psi/cryptor/ipp_ecc_cryptor.h
+++ b/psi/cryptor/ipp_ecc_cryptor.h
@@ -48,6 +48,11 @@ class IppEccCryptor : public IEccCryptor {
 };
 
 class IppElligator2Cryptor : public IppEccCryptor {
+ public:
+  CurveType GetCurveType() const override {
+    return CurveType::CURVE_25519_ELLIGATOR2;
+  }
+
   yacl::crypto::EcPoint HashToCurve(
       absl::Span<const char> item_data) const override;
 };
diff --git a/psi/cryptor/sodium_curve25519_cryptor.h b/psi/cryptor/sodium_curve25519_cryptor.h
index 26d3b15..266b8b5 100644
--- a/psi/cryptor/sodium_curve25519_cryptor.h
+++ b/psi/cryptor/sodium_curve25519_cryptor.h
@@ -66,6 +66,11 @@ class SodiumCurve25519Cryptor : public IEccCryptor {
 };
 
 class SodiumElligator2Cryptor : public SodiumCurve25519Cryptor {
+ public:
+  CurveType GetCurveType() const override {
+    return CurveType::CURVE_25519_ELLIGATOR2;
+  }
+
   yacl::crypto::EcPoint HashToCurve(
       absl::Span<const char> item_data) const override;
 };
-- 
2.43.0


From 6ba2cc8388322fc090c658bb691f8aa880c25a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 10/27] fix: make the digest of the keys tell apart key sets
 with equal concatenation

---
 psi/utils/csv_checker.cc | 2 ++
 psi/utils/table_utils.cc | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index aba4a40..b3b66c7 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -101,6 +101,8 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       // if combined_id is about 128bytes
       // .keys file tasks almost 12GB for 10^8 samples.
       std::string combined_id = KeysJoin(chosen);
+      // the length keeps different key sets from sharing one digest
+      hash_obj.Update(std::to_string(combined_id.size()) + ':');
       hash_obj.Update(combined_id);
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index a6ecd2c..b6bcafe 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -307,6 +307,8 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> start_index,
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
+      // the length keeps different key sets from sharing one digest
+      hash.Update(std::to_string(keys[i].size()) + ':');
       hash.Update(keys[i]);
       out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
@@ -402,6 +404,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   while (!batch.empty()) {
     lines += batch.size();
     for (auto& item : batch) {
+      hash.Update(std::to_string(item.size()) + ':');
       hash.Update(item);
     }
     batch = provider->ReadNextBatch();
-- 
2.43.0


From aa8f9418ad5be057ba9454f6d3ec348aa56eb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 11/27] fix: recompute the key digest of a unique key input
 instead of reusing one left by an earlier job

---
 psi/utils/table_utils.cc | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index b6bcafe..7fc1da3 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -377,25 +377,8 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 
 std::shared_ptr<KeyInfo> KeyInfo::Make(
     std::shared_ptr<UniqueKeyTable> unique_key_table) {
-  auto meta_path = unique_key_table->Path() + ".meta";
-  if (std::filesystem::exists(meta_path) &&
-      std::filesystem::file_size(meta_path)) {
-    SPDLOG_INFO("meta file {} exists already.", meta_path);
-    proto::KeyInfoMeta meta;
-    LoadJsonFileToPbMessage(meta_path, meta);
-
-    if (meta.source_file_size() ==
-        std::filesystem::file_size(unique_key_table->Path())) {
-      return std::shared_ptr<KeyInfo>(
-          new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
-    } else {
-      SPDLOG_WARN(
-          "unique_key_table file size {} not match meta file size {}, rebuild.",
-          std::filesystem::file_size(unique_key_table->Path()),
-          meta.source_file_size());
-    }
-  }
-
+  // The table is the user's input file: the digest must come from its current
+  // content, never from what an earlier job left beside it.
   yacl::crypto::Sha256Hash hash;
   uint32_t lines = 0;
   auto provider = unique_key_table->GetProvider(unique_key_table->Keys());
@@ -418,7 +401,6 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   meta.set_original_cnt(lines);
   meta.set_source_file_size(
       std::filesystem::file_size(unique_key_table->Path()));
-  DumpPbMessageToJsonFile(meta, meta_path);
 
   return std::shared_ptr<KeyInfo>(
       new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
-- 
2.43.0


From cb5e4b42ac4ce4f482b97a09cac95f4dfd0a68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 12/27] fix: refuse a UB-PSI server key the cache was not made
 with

---
 psi/algorithm/ecdh/ub_psi/server.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/server.cc b/psi/algorithm/ecdh/ub_psi/server.cc
index 87ecc44..74691bc 100644
--- a/psi/algorithm/ecdh/ub_psi/server.cc
+++ b/psi/algorithm/ecdh/ub_psi/server.cc
@@ -150,13 +150,13 @@ EcdhUbPsiServer::IndexWithCnt EcdhUbPsiServer::TransCacheIndexesToRowIndexs(
 //   ~= 80 * items + constants(1G)
 void EcdhUbPsiServer::Online() {
   SyncWait(lctx_, [&]() {
-    std::vector<uint8_t> server_private_key;
+    // The cache is only of use with the key it was made with.
+    std::vector<uint8_t> server_private_key =
+        GetCacheProvider()->GetCachePrivateKey();
     if (!config_.server_secret_key_path().empty()) {
-      server_private_key =
-          ReadEcSecretKeyFile(config_.server_secret_key_path());
-    } else {
-      auto cache = GetCacheProvider();
-      server_private_key = cache->GetCachePrivateKey();
+      YACL_ENFORCE(ReadEcSecretKeyFile(config_.server_secret_key_path()) ==
+                       server_private_key,
+                   "server secret key doesn't match the cache.");
     }
 
     auto keys_info = join_processor_->GetUniqueKeysInfo();
-- 
2.43.0


From 8e8b24638f8b2672b2b3a14c8770f17baca220af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 13/27] fix: stop waiting for a failed stage in RR22 AsyncRun
 and KKRT sender

---
 psi/algorithm/kkrt/kkrt_psi.cc |  8 ++++++
 psi/algorithm/rr22/rr22_psi.h  | 52 +++++++++++++++++++++++++++-------
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 372ba93..796133b 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -14,6 +14,7 @@
 
 #include "psi/algorithm/kkrt/kkrt_psi.h"
 
+#include <chrono>
 #include <future>
 #include <numeric>
 #include <unordered_map>
@@ -250,6 +251,13 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
     // after stepSize attempts to encode items, lets see if more
     // corrections have arrived.
     r = recv_idx.load(std::memory_order_acquire);
+
+    // if the receiving thread failed, the remaining corrections never arrive.
+    if (f_recv_corrections.wait_for(std::chrono::seconds(0)) ==
+            std::future_status::ready &&
+        recv_idx.load(std::memory_order_acquire) != num_bins) {
+      break;
+    }
   }
 
   // Join receiving thread and throw exceptions if any thing is wrong.
diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index d940ad7..d51f63d 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -18,6 +18,7 @@
 #include <atomic>
 #include <condition_variable>
 #include <cstddef>
+#include <functional>
 #include <future>
 #include <memory>
 #include <mutex>
@@ -200,23 +201,44 @@ class Rr22Runner {
     std::condition_variable prepare_cv;
     std::mutex oprf_mtx;
     std::condition_variable oprf_cv;
-    auto prepare_f = std::async(std::launch::async, [&]() {
+    // set when a stage failed, so that the other stages stop waiting for it.
+    std::atomic<bool> failed(false);
+    auto run_stage = [&](const std::function<void()>& stage) {
+      try {
+        stage();
+      } catch (...) {
+        std::scoped_lock lock(prepare_mtx, oprf_mtx);
+        failed = true;
+        prepare_cv.notify_all();
+        oprf_cv.notify_all();
+        throw;
+      }
+    };
+    auto prepare_stage = [&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
         auto runner = CreateBucketRunner(i, is_sender);
         runner->Prepare(read_lctx_);
         std::unique_lock lock(prepare_mtx);
-        prepare_cv.wait(
-            lock, [&] { return prepared_runner_queue.size() < cache_size; });
+        prepare_cv.wait(lock, [&] {
+          return failed || prepared_runner_queue.size() < cache_size;
+        });
+        if (failed) {
+          return;
+        }
         prepared_runner_queue.push(runner);
         prepare_cv.notify_all();
       }
-    });
-    auto run_f = std::async(std::launch::async, [&]() {
+    };
+    auto run_oprf_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(prepare_mtx);
-          prepare_cv.wait(lock, [&] { return !prepared_runner_queue.empty(); });
+          prepare_cv.wait(
+              lock, [&] { return failed || !prepared_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = prepared_runner_queue.front();
           prepared_runner_queue.pop();
           prepare_cv.notify_all();
@@ -228,20 +250,30 @@ class Rr22Runner {
           oprf_cv.notify_all();
         }
       }
-    });
-    auto intersection_f = std::async(std::launch::async, [&]() {
+    };
+    auto intersection_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(oprf_mtx);
-          oprf_cv.wait(lock, [&] { return !oprf_runner_queue.empty(); });
+          oprf_cv.wait(lock,
+                       [&] { return failed || !oprf_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = oprf_runner_queue.front();
           oprf_runner_queue.pop();
           oprf_cv.notify_all();
         }
         runner->GetIntersection(intersection_lctx_);
       }
-    });
+    };
+    auto prepare_f =
+        std::async(std::launch::async, [&] { run_stage(prepare_stage); });
+    auto run_f =
+        std::async(std::launch::async, [&] { run_stage(run_oprf_stage); });
+    auto intersection_f =
+        std::async(std::launch::async, [&] { run_stage(intersection_stage); });
     run_f.get();
     prepare_f.get();
     intersection_f.get();
-- 
2.43.0


From d7b659920b9c654571348c98f4267baf55a7595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 14/27] fix: only wait for the prefetch of a batch in
 destructors

---
 psi/utils/ec_point_store.cc | 2 +-
 psi/utils/table_utils.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index 827c509..c2e1244 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -302,7 +302,7 @@ class UbPsiClientCacheFileStoreProvider : public IBasicBatchProvider {
 
   ~UbPsiClientCacheFileStoreProvider() override {
     if (buffer_.valid()) {
-      buffer_.get();
+      buffer_.wait();
     }
     if (input_stream_.is_open()) {
       input_stream_.close();
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 7fc1da3..2e25bf6 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -123,7 +123,7 @@ KeysInfoProvider::BatchInfo SortedTableKeysInfoProvider::ReadBatchWithInfo() {
 
 SortedTableKeysInfoProvider::~SortedTableKeysInfoProvider() {
   if (read_future_.valid()) {
-    read_future_.get();
+    read_future_.wait();
   }
 }
 
-- 
2.43.0


From 37e0646ef387b00a84f2e0999a55f310850b4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:48 +0000
Subject: [PATCH 15/27] fix: refuse a bucket size the legacy configuration
 cannot hold

---
 psi/apps/psi_launcher/launch.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psi/apps/psi_launcher/launch.cc b/psi/apps/psi_launcher/launch.cc
index 31deab7..9943f2a 100644
--- a/psi/apps/psi_launcher/launch.cc
+++ b/psi/apps/psi_launcher/launch.cc
@@ -18,6 +18,7 @@
 #include "psi/apps/psi_launcher/launch.h"
 
 #include <fstream>
+#include <limits>
 
 #include "boost/algorithm/string.hpp"
 #include "google/protobuf/util/json_util.h"
@@ -439,6 +440,11 @@ BucketPsiConfig ExecConfToBucketConf(const PsiExecuteConfig& exec_config) {
       !exec_config.output_params.disable_alignment);
   bucket_conf.set_curve_type(
       kCurTypeMap.at(exec_config.protocol_conf.ecdh_params.curve));
+  // BucketPsiConfig only has room for 32 bits.
+  YACL_ENFORCE(exec_config.protocol_conf.bucket_size <=
+                   std::numeric_limits<uint32_t>::max(),
+               "bucket_size {} is too large",
+               exec_config.protocol_conf.bucket_size);
   bucket_conf.set_bucket_size(exec_config.protocol_conf.bucket_size);
   bucket_conf.mutable_dppsi_params()->set_bob_sub_sampling(
       exec_config.protocol_conf.dp_params.bob_sub_sampling);
-- 
2.43.0


From a99d2bb9e96e012c51d99315c0de0dcea48947e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 16/27] fix: refuse an intersection threshold the protocol does
 not support

---
 psi/apps/psi_launcher/factory.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psi/apps/psi_launcher/factory.cc b/psi/apps/psi_launcher/factory.cc
index 96be458..33222e8 100644
--- a/psi/apps/psi_launcher/factory.cc
+++ b/psi/apps/psi_launcher/factory.cc
@@ -56,6 +56,9 @@ std::unique_ptr<AbstractPsiParty> createPsiParty(
       }
     }
     case v2::Protocol::PROTOCOL_KKRT: {
+      YACL_ENFORCE(config.intersection_threshold() == 0,
+                   "intersection_threshold is only supported by "
+                   "PROTOCOL_ECDH.");
       switch (config.protocol_config().role()) {
         case v2::Role::ROLE_RECEIVER:
           return std::make_unique<kkrt::KkrtPsiReceiver>(config, lctx);
@@ -66,6 +69,9 @@ std::unique_ptr<AbstractPsiParty> createPsiParty(
       }
     }
     case v2::Protocol::PROTOCOL_RR22: {
+      YACL_ENFORCE(config.intersection_threshold() == 0,
+                   "intersection_threshold is only supported by "
+                   "PROTOCOL_ECDH.");
       switch (config.protocol_config().role()) {
         case v2::Role::ROLE_RECEIVER:
           return std::make_unique<rr22::Rr22PsiReceiver>(config, lctx);
-- 
2.43.0


From af756c6d9e5451d822930862ce6e9978b55703d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 17/27] fix: shuffle the partner's items with a
 cryptographically seeded generator

In the three-party ECDH protocol the order of the partner's items hides
which of them match. The shuffle was driven by std::random_device, which
the standard lets be deterministic.
---
 psi/algorithm/ecdh/ecdh_3pc_psi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/ecdh/ecdh_3pc_psi.cc b/psi/algorithm/ecdh/ecdh_3pc_psi.cc
index fb11d7f..6e2518d 100644
--- a/psi/algorithm/ecdh/ecdh_3pc_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_3pc_psi.cc
@@ -24,6 +24,7 @@
 #include "openssl/rand.h"
 #include "spdlog/spdlog.h"
 #include "yacl/base/exception.h"
+#include "yacl/crypto/rand/rand.h"
 #include "yacl/link/link.h"
 #include "yacl/utils/serialize.h"
 
@@ -237,8 +238,7 @@ void ShuffleEcdh3PcPsi::PartnersPsi(const std::vector<std::string>& self_items,
   if (IsPartner()) {
     std::vector<std::string> shuffle_inputs = self_items;
 
-    std::random_device rd;
-    std::mt19937 rng(rd());
+    std::mt19937 rng(yacl::crypto::SecureRandU64());
     std::shuffle(shuffle_inputs.begin(), shuffle_inputs.end(), rng);
 
     PartnersPsiImpl(shuffle_inputs, results);
-- 
2.43.0


From cc0e82402c345fffca6c2463cc831314be40ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 18/27] fix: refuse messages that are no whole number of items
 in the server-aided protocol

The size of the received data was only logged (or not looked at), and the
copy then wrote past the end of the vector sized from the quotient.
---
 psi/algorithm/nty/nty_mp_psi.cc       |  5 +++++
 psi/algorithm/nty/server_aided_psi.cc | 14 ++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/psi/algorithm/nty/nty_mp_psi.cc b/psi/algorithm/nty/nty_mp_psi.cc
index ba0debd..d18288b 100644
--- a/psi/algorithm/nty/nty_mp_psi.cc
+++ b/psi/algorithm/nty/nty_mp_psi.cc
@@ -126,6 +126,7 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
@@ -173,6 +174,7 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
@@ -223,6 +225,7 @@ void NtyMPsi::MultiPartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
@@ -259,6 +262,7 @@ void NtyMPsi::ThreePartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
@@ -289,6 +293,7 @@ void NtyMPsi::ThreePartyPsi(const std::vector<uint128_t>& inputs,
     if (options_.broadcast_result) {
       auto buffer = yacl::link::Broadcast(
           options_.link_ctx, {}, options_.receiver_rank, "broadcast result");
+      YACL_ENFORCE(buffer.size() % sizeof(uint128_t) == 0);
       intersection.resize(buffer.size() / sizeof(uint128_t));
       std::memcpy(intersection.data(), buffer.data<uint8_t>(), buffer.size());
     }
diff --git a/psi/algorithm/nty/server_aided_psi.cc b/psi/algorithm/nty/server_aided_psi.cc
index b85d8cf..703a8a9 100644
--- a/psi/algorithm/nty/server_aided_psi.cc
+++ b/psi/algorithm/nty/server_aided_psi.cc
@@ -54,10 +54,9 @@ void ServerAidedTwoPartyPsi::ServerAidedPsi(
     yacl::Buffer recv_data =
         p2p[aided_server_rank]->Recv(p2p[aided_server_rank]->NextRank(),
                                      fmt::format("recv raw intersection data"));
-    if (recv_data.size() % sizeof(uint128_t) != 0) {
-      SPDLOG_ERROR("recv data size should be a multiple of {} bytes",
-                   sizeof(uint128_t));
-    }
+    YACL_ENFORCE(recv_data.size() % sizeof(uint128_t) == 0,
+                 "recv data size should be a multiple of {} bytes",
+                 sizeof(uint128_t));
 
     outputs.resize(recv_data.size() / sizeof(uint128_t));
     std::vector<uint128_t> recv_cipher(recv_data.size() / sizeof(uint128_t));
@@ -85,10 +84,9 @@ void ServerAidedTwoPartyPsi::ServerAssist(
   auto recv_prf = [&](std::vector<uint128_t>& data, uint64_t id) {
     yacl::Buffer recv_data =
         p2p[id]->Recv(p2p[id]->NextRank(), fmt::format("recv data"));
-    if (recv_data.size() % sizeof(uint128_t) != 0) {
-      SPDLOG_ERROR("recv data size should be a multiple of {} bytes",
-                   sizeof(uint128_t));
-    }
+    YACL_ENFORCE(recv_data.size() % sizeof(uint128_t) == 0,
+                 "recv data size should be a multiple of {} bytes",
+                 sizeof(uint128_t));
     data.resize(recv_data.size() / sizeof(uint128_t));
     std::memcpy(data.data(), recv_data.data(), recv_data.size());
     std::sort(data.begin(), data.end());
-- 
2.43.0


From 2a948826f136e89297015c236431cc1155c39f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 19/27] fix: check the size of received chunks and indices in
 RR22

A chunk larger than what is still expected was copied past the end of the
result, an empty one made the receiver wait for ever, and indices received
from the peer were used without looking at the number of items.
---
 psi/algorithm/rr22/rr22_utils.cc | 10 ++++++++++
 psi/algorithm/rr22/rr22_utils.h  |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/psi/algorithm/rr22/rr22_utils.cc b/psi/algorithm/rr22/rr22_utils.cc
index f51af91..0bb2bda 100644
--- a/psi/algorithm/rr22/rr22_utils.cc
+++ b/psi/algorithm/rr22/rr22_utils.cc
@@ -180,6 +180,9 @@ std::vector<uint32_t> GetIntersectionReceiver(
   size_t recv_item_count = 0;
   while (recv_item_count < peer_items_num) {
     auto buffer = lctx->Recv(lctx->NextRank(), fmt::format("oprf_value"));
+    YACL_ENFORCE(buffer.size() > 0 && buffer.size() % mask_size == 0 &&
+                 buffer.size() <=
+                     (peer_items_num - recv_item_count) * mask_size);
     std::memcpy(peer_buffer.data<uint8_t>() + (recv_item_count * mask_size),
                 buffer.data<uint8_t>(), buffer.size());
     recv_item_count += buffer.size() / mask_size;
@@ -260,13 +263,19 @@ std::pair<std::vector<uint32_t>, std::vector<uint32_t>> GetIntersectionSender(
   std::unordered_map<uint64_t, uint32_t> items_cnt;
   if (broadcast_result) {
     auto buffer = lctx->Recv(lctx->NextRank(), "broadcast_result");
+    YACL_ENFORCE(buffer.size() % sizeof(uint32_t) == 0);
     result.resize(buffer.size() / sizeof(uint32_t));
     std::memcpy(result.data(), buffer.data<uint8_t>(), buffer.size());
     buffer = lctx->Recv(lctx->NextRank(), "broadcast_items_cnt");
     items_cnt = utils::DeserializeItemsCnt(buffer);
   }
+  for (auto index : result) {
+    YACL_ENFORCE(index < items.size(), "index {} out of range", index);
+  }
   std::vector<uint32_t> items_cnt_v(result.size(), 0);
   for (auto& item : items_cnt) {
+    YACL_ENFORCE(item.first < items_cnt_v.size(), "index {} out of range",
+                 item.first);
     items_cnt_v[item.first] = item.second;
   }
   return {result, items_cnt_v};
@@ -299,6 +308,7 @@ std::vector<uint32_t> GetIntersectionSender(
   }
   if (broadcast_result) {
     auto buffer = lctx->Recv(lctx->NextRank(), "broadcast_result");
+    YACL_ENFORCE(buffer.size() % sizeof(uint32_t) == 0);
     result.resize(buffer.size() / sizeof(uint32_t));
     std::memcpy(result.data(), buffer.data<uint8_t>(), buffer.size());
   }
diff --git a/psi/algorithm/rr22/rr22_utils.h b/psi/algorithm/rr22/rr22_utils.h
index 10352a5..e0848f8 100644
--- a/psi/algorithm/rr22/rr22_utils.h
+++ b/psi/algorithm/rr22/rr22_utils.h
@@ -60,6 +60,10 @@ std::vector<ValueType> RecvChunked(
   while (recv_item_count < paxos_size) {
     yacl::Buffer paxos_solve_buf =
         lctx->Recv(lctx->NextRank(), fmt::format("recv paxos_solve"));
+    YACL_ENFORCE(paxos_solve_buf.size() > 0 &&
+                 paxos_solve_buf.size() % sizeof(ValueType) == 0 &&
+                 paxos_solve_buf.size() <=
+                     (paxos_size - recv_item_count) * sizeof(ValueType));
 
     std::memcpy(paxos_solve_v.data() + recv_item_count, paxos_solve_buf.data(),
                 paxos_solve_buf.size());
-- 
2.43.0


From 9d539cbaae4d932edba93f5f2d63fdc3efbb7ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:50 +0000
Subject: [PATCH 20/27] fix: check the indices received in differentially
 private PSI

More indices than announced were copied past the end of the vector, and
the received indices themselves were used without a bound.
---
 psi/legacy/dp_psi/dp_psi.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psi/legacy/dp_psi/dp_psi.cc b/psi/legacy/dp_psi/dp_psi.cc
index 2dd7cdf..40570d4 100644
--- a/psi/legacy/dp_psi/dp_psi.cc
+++ b/psi/legacy/dp_psi/dp_psi.cc
@@ -287,6 +287,7 @@ std::vector<size_t> RunDpEcdhPsiBob(
     YACL_ENFORCE(batch.flatten_bytes.size() % sizeof(size_t) == 0);
     size_t current_num;
     current_num = batch.flatten_bytes.size() / sizeof(size_t);
+    YACL_ENFORCE(current_num <= intersection_idx.size() - recv_idx);
     std::memcpy(intersection_idx.data() + recv_idx, batch.flatten_bytes.data(),
                 batch.flatten_bytes.size());
 
@@ -298,9 +299,13 @@ std::vector<size_t> RunDpEcdhPsiBob(
     }
   }
 
+  YACL_ENFORCE(recv_idx == intersection_idx.size());
+
   std::vector<size_t> dp_intersection_idx;
   dp_intersection_idx.reserve(intersection_idx.size());
   for (const auto& idx : intersection_idx) {
+    YACL_ENFORCE(idx < sub_sample_result.second.size(),
+                 "index {} out of range", idx);
     dp_intersection_idx.push_back(sub_sample_result.second[idx]);
   }
   std::sort(dp_intersection_idx.begin(), dp_intersection_idx.end());
-- 
2.43.0


From d36b91ba386701cb2cbf5cb38d6ecf68a1a46cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 21/27] fix: refuse protocol messages that do not parse

A truncated or malformed message was taken for an empty or partial one.
---
 psi/utils/communication.h | 3 ++-
 psi/utils/serialize.h     | 8 ++++----
 psi/utils/sync.cc         | 1 +
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/psi/utils/communication.h b/psi/utils/communication.h
index 6733b7d..f89a485 100644
--- a/psi/utils/communication.h
+++ b/psi/utils/communication.h
@@ -20,6 +20,7 @@
 #include <unordered_map>
 
 #include "yacl/base/buffer.h"
+#include "yacl/base/exception.h"
 #include "yacl/link/link.h"
 
 #include "psi/utils/serializable.pb.h"
@@ -86,7 +87,7 @@ struct PsiDataBatch {
 
   static PsiDataBatch Deserialize(const yacl::Buffer& buf) {
     proto::PsiDataBatchProto proto;
-    proto.ParseFromArray(buf.data(), buf.size());
+    YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
 
     PsiDataBatch batch;
     batch.item_num = proto.item_num();
diff --git a/psi/utils/serialize.h b/psi/utils/serialize.h
index e564c4a..c9ce901 100644
--- a/psi/utils/serialize.h
+++ b/psi/utils/serialize.h
@@ -38,7 +38,7 @@ inline yacl::Buffer SerializeSize(size_t size) {
 
 inline size_t DeserializeSize(const yacl::Buffer& buf) {
   proto::SizeProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   return proto.input_size();
 }
 
@@ -58,7 +58,7 @@ template <typename T, std::enable_if_t<std::is_same_v<T, uint32_t> ||
                                        int> = 0>
 inline std::vector<T> DeserializeIndexes(const yacl::Buffer& buf) {
   proto::IndexesProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   std::vector<T> size(proto.indexes_size());
   std::copy(proto.indexes().begin(), proto.indexes().end(), size.begin());
   return size;
@@ -86,7 +86,7 @@ inline void DeserializeStrItems(const yacl::Buffer& buf,
                                 std::unordered_map<ItemIndexType, ItemCntType>*
                                     duplicate_item_cnt = nullptr) {
   proto::StrItemsProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   items->reserve(proto.items_size());
   for (auto item : proto.items()) {
     items->emplace_back(item);
@@ -115,7 +115,7 @@ inline std::unordered_map<ItemIndexType, ItemCntType> DeserializeItemsCnt(
     const yacl::Buffer& buf) {
   std::unordered_map<ItemIndexType, ItemCntType> duplicate_item_cnt;
   proto::ItemsCntProto proto;
-  proto.ParseFromArray(buf.data(), buf.size());
+  YACL_ENFORCE(proto.ParseFromArray(buf.data(), buf.size()));
   for (auto& [k, v] : *proto.mutable_duplicate_item_cnt()) {
     duplicate_item_cnt[k] = v;
   }
diff --git a/psi/utils/sync.cc b/psi/utils/sync.cc
index f3a28e0..5387f6e 100644
--- a/psi/utils/sync.cc
+++ b/psi/utils/sync.cc
@@ -27,6 +27,7 @@ std::vector<bool> AllGatherFlag(
   std::vector<yacl::Buffer> buffer_list =
       yacl::link::AllGather(link_ctx, {&int_flage, 1}, "PSI:SYNC_FLAG");
   for (size_t idx = 0; idx < buffer_list.size(); idx++) {
+    YACL_ENFORCE(buffer_list[idx].size() == sizeof(uint8_t));
     flag_list[idx] = (buffer_list[idx].data<uint8_t>()[0] == 1);
   }
   return flag_list;
-- 
2.43.0


From 18094a2c80eb5263436fa32ba09a4456f96455d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 22/27] fix: refuse PIR messages and databases that do not
 parse or cannot be written

A truncated query, response, key or database file was used as if it were
empty or partial, and a seed shorter than expected was read out of bounds.
---
 psi/algorithm/sealpir/seal_pir.cc     | 31 ++++++++++++++++-----------
 psi/algorithm/spiral/serialize.cc     |  8 +++----
 psi/algorithm/spiral/spiral_client.cc |  6 ++++--
 psi/algorithm/spiral/spiral_server.cc | 14 ++++++------
 4 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/psi/algorithm/sealpir/seal_pir.cc b/psi/algorithm/sealpir/seal_pir.cc
index 5ff03f8..049b5d5 100644
--- a/psi/algorithm/sealpir/seal_pir.cc
+++ b/psi/algorithm/sealpir/seal_pir.cc
@@ -369,7 +369,8 @@ string SealPir::SerializePlaintexts(
 vector<seal::Plaintext> SealPir::DeSerializePlaintexts(
     const yacl::ByteContainerView &plaintext_bytes, bool safe_load) const {
   PlaintextsProto plains_proto;
-  plains_proto.ParseFromArray(plaintext_bytes.data(), plaintext_bytes.length());
+  YACL_ENFORCE(plains_proto.ParseFromArray(plaintext_bytes.data(),
+                                           plaintext_bytes.length()));
 
   vector<seal::Plaintext> plains(plains_proto.plains_size());
 
@@ -428,7 +429,8 @@ vector<seal::Ciphertext> SealPir::DeSerializeCiphertexts(
 vector<seal::Ciphertext> SealPir::DeSerializeCiphertexts(
     const yacl::ByteContainerView &ciphers_buffer, bool safe_load) const {
   CiphertextsProto ciphers_proto;
-  ciphers_proto.ParseFromArray(ciphers_buffer.data(), ciphers_buffer.size());
+  YACL_ENFORCE(ciphers_proto.ParseFromArray(ciphers_buffer.data(),
+                                            ciphers_buffer.size()));
 
   return DeSerializeCiphertexts(ciphers_proto, safe_load);
 }
@@ -536,7 +538,8 @@ vector<vector<seal::Ciphertext>> SealPir::DeSerializeQuery(
 vector<vector<seal::Ciphertext>> SealPir::DeSerializeQuery(
     const yacl::ByteContainerView &query_buffer, bool safe_load) const {
   SealPirQueryProto query_proto;
-  query_proto.ParseFromArray(query_buffer.data(), query_buffer.size());
+  YACL_ENFORCE(query_proto.ParseFromArray(query_buffer.data(),
+                                          query_buffer.size()));
 
   return DeSerializeQuery(query_proto, safe_load);
 }
@@ -603,7 +606,8 @@ std::vector<std::vector<seal::Ciphertext>> SealPir::DeSerializeResponse(
 std::vector<std::vector<seal::Ciphertext>> SealPir::DeSerializeResponse(
     const yacl::ByteContainerView &response_buffer, bool safe_load) const {
   SealPirResponseProto response_proto;
-  response_proto.ParseFromArray(response_buffer.data(), response_buffer.size());
+  YACL_ENFORCE(response_proto.ParseFromArray(response_buffer.data(),
+                                             response_buffer.size()));
   return DeSerializeResponse(response_proto, safe_load);
 }
 
@@ -931,23 +935,25 @@ void SealPirServer::Dump(std::ostream &output) const {
   YACL_ENFORCE(DbSeted(), "Before dump, database must be seted.");
 
   auto pir_type_proto = psi::pir::PirTypeToProto(GetPirType());
-  google::protobuf::util::SerializeDelimitedToOstream(pir_type_proto, &output);
+  YACL_ENFORCE(google::protobuf::util::SerializeDelimitedToOstream(
+      pir_type_proto, &output));
 
   SealPirServerProto proto = SerializeToProto();
-  google::protobuf::util::SerializeDelimitedToOstream(proto, &output);
+  YACL_ENFORCE(google::protobuf::util::SerializeDelimitedToOstream(
+      proto, &output));
 }
 
 std::unique_ptr<SealPirServer> SealPirServer::Load(
     google::protobuf::io::FileInputStream &input) {
   pir::PirTypeProto pir_type_proto;
-  google::protobuf::util::ParseDelimitedFromZeroCopyStream(&pir_type_proto,
-                                                           &input, nullptr);
+  YACL_ENFORCE(google::protobuf::util::ParseDelimitedFromZeroCopyStream(
+      &pir_type_proto, &input, nullptr));
   auto type = psi::pir::ProtoToPirType(pir_type_proto);
   YACL_ENFORCE(type == pir::PirType::SEAL_PIR, "PirType does not match");
 
   SealPirServerProto proto;
-  google::protobuf::util::ParseDelimitedFromZeroCopyStream(&proto, &input,
-                                                           nullptr);
+  YACL_ENFORCE(google::protobuf::util::ParseDelimitedFromZeroCopyStream(
+      &proto, &input, nullptr));
   return DeserializeFromProto(proto);
 }
 
@@ -957,7 +963,8 @@ yacl::Buffer SealPirServer::Response(
   yacl::ElapsedTimer timer;
 
   SealPirQueryProto query_proto;
-  query_proto.ParseFromArray(query_buffer.data(), query_buffer.size());
+  YACL_ENFORCE(query_proto.ParseFromArray(query_buffer.data(),
+                                          query_buffer.size()));
   PirQuery query = DeSerializeQuery(query_proto);
 
   GaloisKeys pks = DeSerializeSealObject<GaloisKeys>(
@@ -976,7 +983,7 @@ std::string SealPirServer::Response(const yacl::ByteContainerView &query_buffer,
   yacl::ElapsedTimer timer;
 
   SealPirQueryProto query_proto;
-  query_proto.ParseFromString(query_buffer);
+  YACL_ENFORCE(query_proto.ParseFromString(query_buffer));
   PirQuery query = DeSerializeQuery(query_proto);
 
   GaloisKeys pks = DeSerializeSealObject<GaloisKeys>(pks_buffer);
diff --git a/psi/algorithm/spiral/serialize.cc b/psi/algorithm/spiral/serialize.cc
index 8edd0ac..4f7714d 100644
--- a/psi/algorithm/spiral/serialize.cc
+++ b/psi/algorithm/spiral/serialize.cc
@@ -72,7 +72,7 @@ PolyMatrixRaw DeserializePolyMatrixRaw(const Params& params,
                                        const yacl::ByteContainerView& buffer) {
   // first convert buffer into proto object
   PolyMatrixProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   // then convert proto object to Object
   size_t rows = proto.rows();
@@ -132,7 +132,7 @@ PolyMatrixRaw DeserializePolyMatrixRawRng(yacl::ByteContainerView buffer,
                                           yacl::crypto::Prg<uint64_t> rng) {
   // first convert buffer into proto object
   PolyMatrixProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   // then convert proto object to Object
   size_t rows = proto.rows();
@@ -240,7 +240,7 @@ std::string SerializeResponseToStr(
 std::vector<PolyMatrixRaw> DeserializeResponse(
     const Params& params, const yacl::ByteContainerView& buffer) {
   SpiralResponseProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   std::vector<PolyMatrixRaw> result;
   result.reserve(proto.ct().size());
@@ -254,7 +254,7 @@ std::vector<PolyMatrixRaw> DeserializeResponse(
 PublicKeys DeserializePublicKeys(const Params& params,
                                  const yacl::ByteContainerView& buffer) {
   PublicKeysProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   PublicKeys pks;
   for (const auto& val : proto.v_packing()) {
diff --git a/psi/algorithm/spiral/spiral_client.cc b/psi/algorithm/spiral/spiral_client.cc
index 383ed9f..208f650 100644
--- a/psi/algorithm/spiral/spiral_client.cc
+++ b/psi/algorithm/spiral/spiral_client.cc
@@ -51,12 +51,13 @@ std::string SpiralQuery::SerializeToStr() {
 SpiralQuery SpiralQuery::Deserialize(const Params& params,
                                      const yacl::ByteContainerView& buffer) {
   SpiralQueryProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   SpiralQuery query;
   query.ct_ = PolyMatrixRaw::FromProto(proto.ct(), params);
 
   uint128_t seed{0};
+  YACL_ENFORCE_EQ(proto.seed().size(), sizeof(uint128_t));
   std::memcpy(&seed, proto.seed().data(), sizeof(uint128_t));
   query.seed_ = seed;
 
@@ -86,10 +87,11 @@ std::string SpiralQuery::SerializeRngToStr() {
 SpiralQuery SpiralQuery::DeserializeRng(const Params& params,
                                         const yacl::ByteContainerView& buffer) {
   SpiralQueryProto proto;
-  proto.ParseFromArray(buffer.data(), buffer.size());
+  YACL_ENFORCE(proto.ParseFromArray(buffer.data(), buffer.size()));
 
   // first we construct seed and prg
   uint128_t seed{0};
+  YACL_ENFORCE_EQ(proto.seed().size(), sizeof(uint128_t));
   std::memcpy(&seed, proto.seed().data(), sizeof(uint128_t));
 
   yacl::crypto::Prg<uint64_t> rng(seed);
diff --git a/psi/algorithm/spiral/spiral_server.cc b/psi/algorithm/spiral/spiral_server.cc
index 49a4b23..1489c81 100644
--- a/psi/algorithm/spiral/spiral_server.cc
+++ b/psi/algorithm/spiral/spiral_server.cc
@@ -315,22 +315,24 @@ void SpiralServer::Dump(std::ostream& output) const {
 
   auto pir_type_proto = psi::pir::PirTypeToProto(GetPirType());
 
-  google::protobuf::util::SerializeDelimitedToOstream(pir_type_proto, &output);
+  YACL_ENFORCE(google::protobuf::util::SerializeDelimitedToOstream(
+      pir_type_proto, &output));
   SpiralServerProto proto = SerializeToProto();
-  google::protobuf::util::SerializeDelimitedToOstream(proto, &output);
+  YACL_ENFORCE(google::protobuf::util::SerializeDelimitedToOstream(
+      proto, &output));
 }
 
 std::unique_ptr<SpiralServer> SpiralServer::Load(
     google::protobuf::io::FileInputStream& input) {
   pir::PirTypeProto pir_type_proto;
-  google::protobuf::util::ParseDelimitedFromZeroCopyStream(&pir_type_proto,
-                                                           &input, nullptr);
+  YACL_ENFORCE(google::protobuf::util::ParseDelimitedFromZeroCopyStream(
+      &pir_type_proto, &input, nullptr));
   auto type = psi::pir::ProtoToPirType(pir_type_proto);
   YACL_ENFORCE(type == pir::PirType::SPIRAL_PIR, "PirType does not match");
 
   SpiralServerProto proto;
-  google::protobuf::util::ParseDelimitedFromZeroCopyStream(&proto, &input,
-                                                           nullptr);
+  YACL_ENFORCE(google::protobuf::util::ParseDelimitedFromZeroCopyStream(
+      &proto, &input, nullptr));
   return DeserializeFromProto(proto);
 }
 
-- 
2.43.0


From e84fa90a601b2abe0d927449e488601955fa9a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 23/27] fix: refuse curve points that cannot be decoded

A point received from the peer that is not on the curve (or, with FourQ,
too short) was used all the same; results of the other group and big
number operations are examined, too.
---
 psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc | 14 ++++++++++----
 psi/cryptor/ecc_utils.h                      |  9 ++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc b/psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc
index eb52041..e4d78f6 100644
--- a/psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc
+++ b/psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc
@@ -77,9 +77,11 @@ std::string EcPointMul(absl::string_view sk_bytes,
                   ec_group.bn_n);
 
   EcPointSt ec_point(ec_group);
-  EC_POINT_oct2point(ec_group.get(), ec_point.get(),
-                     reinterpret_cast<const uint8_t *>(point_bytes.data()),
-                     point_bytes.length(), bn_ctx.get());
+  YACL_ENFORCE(
+      EC_POINT_oct2point(ec_group.get(), ec_point.get(),
+                         reinterpret_cast<const uint8_t *>(point_bytes.data()),
+                         point_bytes.length(), bn_ctx.get()) == 1,
+      "invalid ec point");
 
   EcPointSt ec_point2 = ec_point.PointMul(ec_group, bn_sk);
 
@@ -272,6 +274,8 @@ std::string FourQPointMul(absl::string_view sk_bytes,
   point_t A;
   ECCRYPTO_STATUS status = ECCRYPTO_ERROR_UNKNOWN;
 
+  YACL_ENFORCE(point_bytes.size() == kEccKeySize,
+               "fourq invalid point size = {}", point_bytes.size());
   if ((point_bytes[15] & 0x80) != 0) {  // Is bit128(PublicKey) = 0?
     status = ECCRYPTO_ERROR_INVALID_PARAMETER;
     YACL_THROW("fourq invalid point status = {}", static_cast<int>(status));
@@ -297,7 +301,9 @@ void FourQHashToCurvePoint(absl::string_view input, point_t pt) {
   mod1271(r[0]);
   mod1271(r[1]);
 
-  HashToCurve(r, pt);
+  ECCRYPTO_STATUS status = HashToCurve(r, pt);
+  YACL_ENFORCE(status == ECCRYPTO_SUCCESS, "fourq HashToCurve error, status={}",
+               static_cast<int>(status));
 }
 
 }  // namespace
diff --git a/psi/cryptor/ecc_utils.h b/psi/cryptor/ecc_utils.h
index 5e82f56..715328a 100644
--- a/psi/cryptor/ecc_utils.h
+++ b/psi/cryptor/ecc_utils.h
@@ -76,8 +76,10 @@ struct BigNumSt {
   std::string ToBytes() {
     std::string bytes(kEc256KeyLength, '\0');
 
-    BN_bn2binpad(bn_ptr.get(), reinterpret_cast<uint8_t*>(bytes.data()),
-                 kEc256KeyLength);
+    YACL_ENFORCE(BN_bn2binpad(bn_ptr.get(),
+                              reinterpret_cast<uint8_t*>(bytes.data()),
+                              kEc256KeyLength) ==
+                 static_cast<int>(kEc256KeyLength));
 
     return bytes;
   }
@@ -114,7 +116,8 @@ struct BigNumSt {
 
     BigNumSt bn_inv;
 
-    BN_mod_inverse(bn_inv.get(), bn_ptr.get(), p.get(), bn_ctx.get());
+    YACL_ENFORCE(nullptr != BN_mod_inverse(bn_inv.get(), bn_ptr.get(), p.get(),
+                                           bn_ctx.get()));
     return bn_inv;
   }
 
-- 
2.43.0


From 8fc25fc0ea194e762d08b13999efa2a79348b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 24/27] fix: refuse output files that could not be written
 completely

---
 psi/algorithm/dkpir/common.cc        |  4 ++++
 psi/algorithm/dkpir/sender.cc        |  1 +
 psi/algorithm/dkpir/sender_cnt_db.cc |  3 +++
 psi/utils/arrow_helper.cc            |  1 +
 psi/utils/csv_converter.cc           |  3 +++
 psi/utils/index_store.cc             | 13 +++++++++----
 psi/utils/join_processor.cc          |  4 ++++
 psi/utils/table_utils.cc             |  7 +++++++
 psi/wrapper/apsi/utils/common.cc     |  8 ++++++++
 9 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/psi/algorithm/dkpir/common.cc b/psi/algorithm/dkpir/common.cc
index 042d65b..5fbbf59 100644
--- a/psi/algorithm/dkpir/common.cc
+++ b/psi/algorithm/dkpir/common.cc
@@ -129,10 +129,14 @@ void WriteIntersectionResults(
     if (append_to_outfile) {
       std::ofstream ofs(out_file, std::ios_base::app);
       ofs << csv_output.str();
+      ofs.close();
+      YACL_ENFORCE(!ofs.fail(), "failed to write file {}", out_file);
     } else {
       std::ofstream ofs(out_file);
       ofs << csv_header << std::endl;
       ofs << csv_output.str();
+      ofs.close();
+      YACL_ENFORCE(!ofs.fail(), "failed to write file {}", out_file);
     }
 
     APSI_LOG_INFO("Wrote output to " << out_file);
diff --git a/psi/algorithm/dkpir/sender.cc b/psi/algorithm/dkpir/sender.cc
index 11a061d..0e0421d 100644
--- a/psi/algorithm/dkpir/sender.cc
+++ b/psi/algorithm/dkpir/sender.cc
@@ -497,5 +497,6 @@ void DkPirSender::SaveRowCount(uint64_t row_count) {
   fs << "count" << std::endl;
   fs << row_count << std::endl;
   fs.close();
+  YACL_ENFORCE(!fs.fail(), "failed to write file {}", options_.result_file);
 }
 }  // namespace psi::dkpir
\ No newline at end of file
diff --git a/psi/algorithm/dkpir/sender_cnt_db.cc b/psi/algorithm/dkpir/sender_cnt_db.cc
index c45987c..34ad916 100644
--- a/psi/algorithm/dkpir/sender_cnt_db.cc
+++ b/psi/algorithm/dkpir/sender_cnt_db.cc
@@ -15,6 +15,7 @@
 #include "psi/algorithm/dkpir/sender_cnt_db.h"
 
 #include "heu/library/algorithms/elgamal/elgamal.h"
+#include "yacl/base/exception.h"
 #include "yacl/crypto/rand/rand.h"
 #include "yacl/utils/parallel.h"
 
@@ -77,6 +78,8 @@ void EncryptCount(psi::apsi_wrapper::LabeledData &data,
 
   std::ofstream out(sk_file, std::ios::binary);
   psi::dkpir::Save(polynomial, secret_key, out);
+  out.close();
+  YACL_ENFORCE(!out.fail(), "failed to write file {}", sk_file);
 
   SPDLOG_INFO(
       "Complete the encryption of the row count, and store the private key of "
diff --git a/psi/utils/arrow_helper.cc b/psi/utils/arrow_helper.cc
index 98ad966..c3adb54 100644
--- a/psi/utils/arrow_helper.cc
+++ b/psi/utils/arrow_helper.cc
@@ -88,6 +88,7 @@ std::vector<std::string> GetCsvColumnsNames(const std::string& path) {
                path);
   ofile << line << '\n';
   ofile.close();
+  YACL_ENFORCE(!ofile.fail(), "failed to write file {}", tmp_file_name);
 
   auto reader = MakeCsvReader(tmp_file_name);
   std::vector<std::string> columns_names;
diff --git a/psi/utils/csv_converter.cc b/psi/utils/csv_converter.cc
index b11c91a..aef267d 100644
--- a/psi/utils/csv_converter.cc
+++ b/psi/utils/csv_converter.cc
@@ -52,6 +52,7 @@ void WriteCsvFile(
   }
 
   writer.close();
+  YACL_ENFORCE(!writer.fail(), "failed to write file {}", file_path);
 }
 
 std::shared_ptr<arrow::csv::StreamingReader> MakeStreamingReader(
@@ -204,6 +205,7 @@ void ApsiCsvConverter::ExtractQueryTo(const std::string& query_file_path) {
   }
 
   writer.close();
+  YACL_ENFORCE(!writer.fail(), "failed to write file {}", query_file_path);
   SPDLOG_INFO("Write query file: {}", query_file_path);
 }
 
@@ -275,6 +277,7 @@ int ApsiCsvConverter::ExtractResult(
   std::ofstream writer(result_file_path);
   writer << csv_output.str();
   writer.close();
+  YACL_ENFORCE(!writer.fail(), "failed to write file {}", result_file_path);
   SPDLOG_INFO("Write result file: {}", result_file_path);
 
   return total_row_cnt;
diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index f05bc00..ae75265 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -43,6 +43,7 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
 
       file << absl::StrJoin(fields, ",") << '\n';
       file.close();
+      YACL_ENFORCE(!file.fail(), "failed to write file {}", path_.string());
     }
   }
   outfile_ = io::GetArrowOutputStream(path_, true);
@@ -121,12 +122,16 @@ void IndexWriter::Close() {
 
   Commit();
 
-  if (!outfile_->Close().ok()) {
-    SPDLOG_ERROR("outfile_ close failed.");
-  }
+  YACL_ENFORCE(outfile_->Close().ok(), "outfile_ close failed.");
 }
 
-IndexWriter::~IndexWriter() { Close(); }
+IndexWriter::~IndexWriter() {
+  try {
+    Close();
+  } catch (const std::exception& e) {
+    SPDLOG_ERROR("close index writer {} failed: {}", path_.string(), e.what());
+  }
+}
 
 FileIndexReader::FileIndexReader(const std::filesystem::path& path) {
   YACL_ENFORCE(std::filesystem::exists(path), "Input file {} doesn't exist.",
diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 571e2d4..ccad231 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -295,6 +295,7 @@ void JoinProcessor::GenerateResult(uint32_t peer_except_cnt) {
 
     std::string line;
     std::ifstream ifs(input_path);
+    YACL_ENFORCE(ifs.is_open(), "failed to open file {}", input_path);
     std::getline(ifs, line);
 
     while (std::getline(ifs, line)) {
@@ -337,6 +338,9 @@ void JoinProcessor::GenerateResult(uint32_t peer_except_cnt) {
     write_na(peer_except_cnt);
   }
 
+  ofs->close();
+  YACL_ENFORCE(!ofs->fail(), "failed to write file {}", output_path_);
+
   SPDLOG_INFO("end generate result file: {}", output_path_);
 }
 
diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 2e25bf6..dcdea0b 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -362,6 +362,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 
   write_to_csv({cur_key}, {cur_key_start_index}, {cur_key_dup_cnt});
   out.close();
+  YACL_ENFORCE(!out.fail(), "failed to write file {}", path);
 
   proto::KeyInfoMeta meta;
   auto keys_hash = hash.CumulativeHash();
@@ -469,9 +470,13 @@ void ResultDumper::Dump(const std::string& line, int64_t duplicate_cnt,
 void ResultDumper::Flush() {
   if (intersect_file_) {
     intersect_file_->flush();
+    YACL_ENFORCE(intersect_file_->good(), "failed to write file {}",
+                 intersect_path_);
   }
   if (except_file_) {
     except_file_->flush();
+    YACL_ENFORCE(except_file_->good(), "failed to write file {}",
+                 except_path_);
   }
 }
 
@@ -486,6 +491,8 @@ KeyInfo::StatInfo KeyInfo::ApplyPeerDupCnt(IndexReader& reader,
   uint32_t inter_unique_cnt = 0;
   std::string line;
   std::ifstream sorted_file(table_->Path());
+  YACL_ENFORCE(sorted_file.is_open(), "failed to open file {}",
+               table_->Path());
   std::getline(sorted_file, line);
   // dump schema line
   dumper.ToIntersect(line);
diff --git a/psi/wrapper/apsi/utils/common.cc b/psi/wrapper/apsi/utils/common.cc
index 08c585e..ad6b4e1 100644
--- a/psi/wrapper/apsi/utils/common.cc
+++ b/psi/wrapper/apsi/utils/common.cc
@@ -246,10 +246,18 @@ int print_intersection_results(
     if (append_to_outfile) {
       std::ofstream ofs(out_file, std::ios_base::app);
       ofs << csv_output.str();
+      ofs.close();
+      if (ofs.fail()) {
+        throw runtime_error("failed to write file " + out_file);
+      }
     } else {
       std::ofstream ofs(out_file);
       ofs << csv_header << endl;
       ofs << csv_output.str();
+      ofs.close();
+      if (ofs.fail()) {
+        throw runtime_error("failed to write file " + out_file);
+      }
     }
 
     APSI_LOG_INFO("Wrote output to " << out_file);
-- 
2.43.0


From 803b5eecb896395d31877592ed20dbbfe401a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 25/27] fix: refuse caches, databases and csv files that cannot
 be read

---
 psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc |  2 ++
 psi/utils/ec_point_store.cc               | 14 +++++++++++++-
 psi/wrapper/apsi/utils/csv_reader.cc      |  8 ++------
 psi/wrapper/apsi/utils/group_bucket_db.cc |  5 +++++
 4 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc b/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
index 8317ece..ae60305 100644
--- a/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
+++ b/psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc
@@ -67,6 +67,8 @@ std::vector<UbPsiCacheItem> UbPsiCacheProvider::ReadData(size_t read_count) {
 
   in_.read(reinterpret_cast<char*>(ret.data()),
            read_count * sizeof(UbPsiCacheItem));
+  YACL_ENFORCE(!in_.fail(), "failed to read {} items from {}", read_count,
+               file_path_);
 
   return ret;
 }
diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index c2e1244..1f59664 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -352,6 +352,7 @@ class UbPsiClientCacheFileStoreProvider : public IBasicBatchProvider {
       cache_item.resize(count);
       input_stream_.read(reinterpret_cast<char*>(cache_item.data()),
                          count * sizeof(UbPsiClientCacheFileStore::CacheItem));
+      YACL_ENFORCE(!input_stream_.fail(), "failed to read the ub psi cache");
       read_cnt_ += count;
       return cache_item;
     });
@@ -371,6 +372,7 @@ class UbPsiClientCacheFileStoreProvider : public IBasicBatchProvider {
 void UbPsiClientCacheFileStore::LoadMeta() {
   std::ifstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.read(reinterpret_cast<char*>(&meta_), sizeof(CacheMeta));
+  YACL_ENFORCE(!meta_stream.fail(), "failed to read file {}", meta_path_);
 }
 
 void UbPsiClientCacheFileStore::DumpMeta() {
@@ -378,6 +380,8 @@ void UbPsiClientCacheFileStore::DumpMeta() {
       .item_cnt = item_cnt_, .peer_cnt = peer_cnt_, .cipher_len = cipher_len_};
   std::ofstream meta_stream(meta_path_, std::ios::binary);
   meta_stream.write(reinterpret_cast<const char*>(&meta_), sizeof(CacheMeta));
+  meta_stream.close();
+  YACL_ENFORCE(!meta_stream.fail(), "failed to write file {}", meta_path_);
 }
 
 UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
@@ -395,6 +399,7 @@ UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
   }
 
   output_stream_ = std::fstream(path_, std::ios::app | std::ios::binary);
+  YACL_ENFORCE(output_stream_.is_open(), "failed to open file {}", path_);
   item_cnt_ = std::filesystem::file_size(path_) /
               sizeof(UbPsiClientCacheFileStore::CacheItem);
 
@@ -412,7 +417,13 @@ UbPsiClientCacheFileStore::UbPsiClientCacheFileStore(std::string path,
   }
 }
 
-UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() { Flush(); }
+UbPsiClientCacheFileStore::~UbPsiClientCacheFileStore() {
+  try {
+    Flush();
+  } catch (const std::exception& e) {
+    SPDLOG_ERROR("flush ub psi cache {} failed: {}", path_, e.what());
+  }
+}
 
 std::shared_ptr<IBasicBatchProvider>
 UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
@@ -422,6 +433,7 @@ UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
 
 void UbPsiClientCacheFileStore::Flush() {
   output_stream_.flush();
+  YACL_ENFORCE(output_stream_.good(), "failed to write file {}", path_);
   DumpMeta();
 }
 
diff --git a/psi/wrapper/apsi/utils/csv_reader.cc b/psi/wrapper/apsi/utils/csv_reader.cc
index ad96237..ca43d63 100644
--- a/psi/wrapper/apsi/utils/csv_reader.cc
+++ b/psi/wrapper/apsi/utils/csv_reader.cc
@@ -104,9 +104,7 @@ auto ApsiCsvReader::read() -> pair<DBData, vector<string>> {
     // Attempt to read the first RecordBatch
     arrow::Status status = reader_->ReadNext(&batch);
 
-    if (!status.ok()) {
-      APSI_LOG_ERROR("Read csv error.");
-    }
+    YACL_ENFORCE(status.ok(), "Read csv error.");
 
     if (batch == nullptr) {
       // Handle end of file
@@ -190,9 +188,7 @@ void ApsiCsvReader::bucketize(size_t bucket_cnt,
     // Attempt to read the first RecordBatch
     arrow::Status status = reader_->ReadNext(&batch);
 
-    if (!status.ok()) {
-      APSI_LOG_ERROR("Read csv error.");
-    }
+    YACL_ENFORCE(status.ok(), "Read csv error.");
 
     if (batch == nullptr) {
       // Handle end of file
diff --git a/psi/wrapper/apsi/utils/group_bucket_db.cc b/psi/wrapper/apsi/utils/group_bucket_db.cc
index 2fb578d..9ab4a30 100644
--- a/psi/wrapper/apsi/utils/group_bucket_db.cc
+++ b/psi/wrapper/apsi/utils/group_bucket_db.cc
@@ -219,6 +219,7 @@ void GroupDBItem::LoadMeta() {
 
   size_t bucket_num;
   mete_ifs >> bucket_num;
+  YACL_ENFORCE(!mete_ifs.fail(), "failed to read file {}", meta_filename_);
 
   YACL_ENFORCE_LE(bucket_num, max_bucket_cnt_,
                   "bucket_num {} is too large(more than {})", bucket_num,
@@ -229,6 +230,7 @@ void GroupDBItem::LoadMeta() {
     size_t offset;
 
     mete_ifs >> bucket_id >> offset;
+    YACL_ENFORCE(!mete_ifs.fail(), "failed to read file {}", meta_filename_);
     bucket_offset_map_[bucket_id] = offset;
     offset_bucket_map_[offset] = bucket_id;
   }
@@ -245,6 +247,7 @@ GroupDBItem::BucketDBItem GroupDBItem::LoadBucket(size_t bucket_id) {
   }
   size_t offset = bucket_offset_map_[bucket_id];
   std::ifstream ifs = std::ifstream(filename_, std::ios::binary);
+  YACL_ENFORCE(ifs.is_open(), "failed to open file {}", filename_);
   ifs.seekg(offset);
 
   BucketDBItem bucket_db;
@@ -399,6 +402,8 @@ void GroupDBItem::Generate() {
   for (auto& [bucket_id, offset] : bucket_offset_map_) {
     meta_ofs << bucket_id << " " << offset << '\n';
   }
+  meta_ofs.close();
+  YACL_ENFORCE(!meta_ofs.fail(), "failed to write file {}", meta_filename_);
 
   complete_ = true;
 }
-- 
2.43.0


From 88375e2ebf34c6485d08592fce25f533120b0ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 26/27] fix: do not carry on after a failed scalar
 multiplication or base64 decoding

---
 psi/algorithm/dkpir/oprf_receiver.cc       | 6 ++++--
 psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/psi/algorithm/dkpir/oprf_receiver.cc b/psi/algorithm/dkpir/oprf_receiver.cc
index 8d734ca..44a935e 100644
--- a/psi/algorithm/dkpir/oprf_receiver.cc
+++ b/psi/algorithm/dkpir/oprf_receiver.cc
@@ -56,7 +56,8 @@ void ShuffledOPRFReceiver::process_items(
                                         inv_factor_data_.get_factor(i));
 
     // Multiply our point with the random scalar
-    ecpt.scalar_multiply(random_scalar, false);
+    YACL_ENFORCE(ecpt.scalar_multiply(random_scalar, false),
+                 "scalar multiplication failed");
 
     // Save the result to items_buffer
     ecpt.save(::apsi::oprf::ECPoint::point_save_span_type{
@@ -89,7 +90,8 @@ void ShuffledOPRFReceiver::process_responses(
         oprf_in_ptr, ::apsi::oprf::oprf_response_size});
 
     // Multiply with inverse random scalar
-    ecpt.scalar_multiply(inv_factor_data_.get_factor(i), false);
+    YACL_ENFORCE(ecpt.scalar_multiply(inv_factor_data_.get_factor(i), false),
+                 "scalar multiplication failed");
 
     // Extract the item hash and the label encryption key
     std::array<unsigned char, ::apsi::oprf::ECPoint::hash_size>
diff --git a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc
index a4f72e8..acee3c1 100644
--- a/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc
+++ b/psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc
@@ -679,7 +679,8 @@ void EcdhOprfPsiClient::SendIntersectionMaskedItems(
 
     for (uint64_t idx = 0; idx < items.size(); ++idx) {
       std::string b64_dest;
-      absl::Base64Unescape(items[idx], &b64_dest);
+      YACL_ENFORCE(absl::Base64Unescape(items[idx], &b64_dest),
+                   "masked item is not base64 encoded");
 
       blinded_batch.flatten_bytes.append(b64_dest);
     }
-- 
2.43.0


From 430e78bc3aaf4e350effe4baaefa45a0e81e40c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 27/27] fix: refuse a kuscia config that is not a JSON object

---
 psi/apps/psi_launcher/kuscia_adapter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psi/apps/psi_launcher/kuscia_adapter.cc b/psi/apps/psi_launcher/kuscia_adapter.cc
index e2e5f27..11780bb 100644
--- a/psi/apps/psi_launcher/kuscia_adapter.cc
+++ b/psi/apps/psi_launcher/kuscia_adapter.cc
@@ -33,6 +33,8 @@ namespace psi {
 KusciaTask FromKusciaConfig(const std::string& json_str) {
   rapidjson::Document d;
   d.Parse(json_str.c_str());
+  YACL_ENFORCE(!d.HasParseError() && d.IsObject(),
+               "kuscia config is not a JSON object");
 
   KusciaTask kuscia_task;
 
-- 
2.43.0

