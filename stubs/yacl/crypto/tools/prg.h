#pragma once
#include <cstdint>
#include <cstring>
#include <random>
#include <vector>
#include <type_traits>
#include "absl/types/span.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
namespace yacl::crypto {
enum class PRG_MODE { kNistAesCtrDrbg, kAesEcb };
template <typename T, size_t B = 128 * 16> class Prg {
 public:
  using result_type = T;
  Prg() : Prg(0) {}
  explicit Prg(uint128_t seed, PRG_MODE = PRG_MODE::kAesEcb) { SetSeed(seed); }
  Prg(uint128_t seed, uint64_t c) { SetSeed(seed); g_.discard(c); }
  void SetSeed(uint128_t s) { s_ = s; g_.seed(static_cast<uint64_t>(s) ^ (static_cast<uint64_t>(s >> 64) * 0x9E3779B97F4A7C15ULL)); }
  uint128_t Seed() const { return s_; }
  uint64_t Counter() const { return 0; }
  T operator()() { T t; auto* p = reinterpret_cast<uint8_t*>(&t); for (size_t i = 0; i < sizeof(T); ++i) p[i] = static_cast<uint8_t>(g_()); return t; }
  template <typename Y> void Fill(absl::Span<Y> out) { auto* p = reinterpret_cast<uint8_t*>(out.data()); for (size_t i = 0; i < out.size() * sizeof(Y); ++i) p[i] = static_cast<uint8_t>(g_()); }
  static constexpr T min() { return 0; }
  static constexpr T max() { return ~static_cast<T>(0); }
 private:
  std::mt19937_64 g_; uint128_t s_ = 0;
};
template <typename T, std::enable_if_t<std::is_scalar_v<T> || std::is_same_v<T, uint128_t>, int> = 0>
inline void PrgAesCtr(uint128_t seed, absl::Span<T> out) { Prg<uint8_t> p(seed); p.Fill(out); }
template <typename T> inline uint64_t PrgAesCtr(uint128_t seed, uint64_t c, absl::Span<T> out) { Prg<uint8_t> p(seed, c); p.Fill(out); return c; }
template <typename T> inline std::vector<T> PrgAesCtr(uint128_t seed, size_t n) { std::vector<T> r(n); PrgAesCtr<T>(seed, absl::MakeSpan(r)); return r; }
}  // namespace yacl::crypto
