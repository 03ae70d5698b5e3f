#pragma once
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
class SymmetricCrypto { public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType t, uint128_t key, uint128_t iv = 0) : t_(t), k_(key), iv_(iv) {}
  SymmetricCrypto(CryptoType t, ByteContainerView, ByteContainerView = {}) : t_(t) {}
  uint128_t Encrypt(uint128_t x) const { return x * 0x9E3779B97F4A7C15ULL + k_ + iv_; }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { for (size_t i = 0; i < in.size(); ++i) out[i] = Encrypt(in[i]); }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { for (size_t i = 0; i < in.size(); ++i) out[i] = in[i] ^ static_cast<uint8_t>(k_); }
  uint128_t Decrypt(uint128_t x) const { return x; }
  void Decrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { for (size_t i = 0; i < in.size(); ++i) out[i] = in[i] ^ static_cast<uint8_t>(k_); }
  CryptoType GetType() const { return t_; }
  static constexpr int BlockSize() { return 128 / 8; }
 private: CryptoType t_; uint128_t k_ = 0, iv_ = 0; };
}
