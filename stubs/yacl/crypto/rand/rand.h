#pragma once
#include <cstdint>
#include <cstring>
#include <random>
#include <string>
#include <vector>
#include <boost/dynamic_bitset.hpp>
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/tools/prg.h"
namespace yacl::crypto {
void StubRandFill(void* p, size_t n);
inline void RandBytes(void* p, size_t n, bool = false) { static thread_local std::random_device d; auto* c = static_cast<uint8_t*>(p); for (size_t i = 0; i < n; ++i) c[i] = static_cast<uint8_t>(d()); }
template <typename T, std::enable_if_t<sizeof(T) == 1, bool> = true> inline void FillRand(T* p, size_t n, bool fast = false) { RandBytes(p, n, fast); }
inline std::vector<uint8_t> RandBytes(uint64_t n, bool = false) { std::vector<uint8_t> r(n); RandBytes(static_cast<void*>(r.data()), n); return r; }
inline std::vector<uint8_t> SecureRandBytes(uint64_t n) { return RandBytes(n); }
inline std::vector<uint8_t> FastRandBytes(uint64_t n) { return RandBytes(n); }
inline uint32_t SecureRandU32() { uint32_t v; RandBytes(&v, sizeof(v)); return v; }
inline uint64_t RandU64(bool = false) { uint64_t v; RandBytes(&v, sizeof(v)); return v; }
inline uint64_t SecureRandU64() { return RandU64(); }
inline uint64_t FastRandU64() { return RandU64(); }
inline uint128_t RandU128(bool = false) { uint128_t v; RandBytes(&v, sizeof(v)); return v; }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint128_t FastRandU128() { return RandU128(); }
inline uint128_t RandSeed(bool = false) { return RandU128(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
template <typename T = dynamic_bitset<uint128_t>> inline T RandBits(uint64_t len, bool = false) { T r; r.resize(len); for (uint64_t i = 0; i < len; ++i) r[i] = (RandU64() & 1); return r; }
template <typename T = dynamic_bitset<uint128_t>> inline T SecureRandBits(uint64_t len) { return RandBits<T>(len); }
template <typename T> inline std::vector<T> RandVec(uint64_t n, bool = false) { std::vector<T> r(n); RandBytes(static_cast<void*>(r.data()), n * sizeof(T)); return r; }
template <typename T> inline std::vector<T> SecureRandVec(uint64_t n) { return RandVec<T>(n); }
template <typename T> inline std::vector<T> FastRandVec(uint64_t n) { return RandVec<T>(n); }
template <typename T> class YaclReplayUrbg {
 public:
  using result_type = T;
  explicit YaclReplayUrbg(uint128_t s, uint64_t c = 0) : g_(static_cast<uint64_t>(s) ^ (static_cast<uint64_t>(s >> 64) * 31) ^ c), c_(c) {}
  static constexpr T min() { return 0; }
  static constexpr T max() { return ~static_cast<T>(0); }
  T operator()() { ++c_; return static_cast<T>(g_()); }
  uint64_t GetCounter() const { return c_; }
 private:
  std::mt19937_64 g_; uint64_t c_;
};
template <typename T> class YaclStdUrbg { public: using result_type = T; static constexpr T min() { return 0; } static constexpr T max() { return ~static_cast<T>(0); } T operator()() { return static_cast<T>(RandU64()); } };
}  // namespace yacl::crypto
