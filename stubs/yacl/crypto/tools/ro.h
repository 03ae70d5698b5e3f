#pragma once
#include <memory>
#include "yacl/crypto/hash/hash_interface.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/base/buffer.h"
namespace yacl::crypto {
class RandomOracle { public: RandomOracle(HashAlgorithm, size_t n) : n_(n) {} 
  Buffer operator()(ByteContainerView b, size_t n) const { Buffer r(static_cast<int64_t>(n)); auto h = Blake3(b); std::memcpy(r.data(), h.data(), n < 32 ? n : 32); return r; }
  Buffer operator()(ByteContainerView b) const { return (*this)(b, n_); }
  template <typename T> T Gen(ByteContainerView b) const { T t; auto h = Blake3(b); std::memcpy(&t, h.data(), sizeof(T)); return t; }
  template <typename T> T Gen(ByteContainerView b, uint64_t) const { return Gen<T>(b); }
  static RandomOracle& GetDefault() { static RandomOracle r(HashAlgorithm::BLAKE3, 32); return r; }
 private: size_t n_; };
inline uint64_t RO_64(ByteContainerView b) { return RandomOracle::GetDefault().Gen<uint64_t>(b); }
inline uint128_t RO_128(ByteContainerView b) { return RandomOracle::GetDefault().Gen<uint128_t>(b); }
inline std::array<uint8_t, 32> RO_Blake3_256(ByteContainerView b) { auto h = Blake3(b); std::array<uint8_t, 32> r{}; std::memcpy(r.data(), h.data(), 32); return r; }
}
