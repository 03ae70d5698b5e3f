#pragma once
#include <array>
#include <memory>
#include <vector>
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/rand/rand.h"
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
enum class OtStoreType { Normal, Compact };
class OtRecvStore { public: OtRecvStore() = default; OtRecvStore(dynamic_bitset<uint128_t> c, const std::vector<uint128_t>& b) : c_(c), b_(b) {} uint64_t Size() const { return b_.size(); } uint8_t GetChoice(uint64_t i) const { return c_[i]; } uint128_t GetBlock(uint64_t i) const { return b_[i]; } dynamic_bitset<uint128_t> CopyChoice() const { return c_; } std::vector<uint128_t> CopyBlocks() const { return b_; } private: dynamic_bitset<uint128_t> c_; std::vector<uint128_t> b_; };
class OtSendStore { public: OtSendStore() = default; explicit OtSendStore(const std::vector<std::array<uint128_t, 2>>& b) : b_(b) {} uint64_t Size() const { return b_.size(); } uint128_t GetBlock(uint64_t i, uint64_t j) const { return b_[i][j]; } uint128_t GetDelta() const { return 0; } private: std::vector<std::array<uint128_t, 2>> b_; };
inline OtRecvStore MakeOtRecvStore(const dynamic_bitset<uint128_t>& c, const std::vector<uint128_t>& b) { return {c, b}; }
inline OtSendStore MakeOtSendStore(const std::vector<std::array<uint128_t, 2>>& b) { return OtSendStore(b); }
OtRecvStore MakeCompactOtRecvStore(uint64_t);
}
namespace yacl { using OtSendStore = crypto::OtSendStore; using OtRecvStore = crypto::OtRecvStore; }
