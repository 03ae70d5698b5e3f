#pragma once
#include <immintrin.h>
#include <array>
#include <cstring>
#include "yacl/base/int128.h"
namespace yacl {
struct alignas(16) block : public std::array<uint64_t, 2> {
  block() = default;
  explicit block(uint128_t v) : block(static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)) {}
  block(uint64_t x1, uint64_t x0) { (*this)[0] = x0; (*this)[1] = x1; }
  block(const __m128i& x) { mm() = x; }
  explicit block(uint64_t x) : block(0, x) {}
  operator const __m128i&() const { return mm(); }
  operator __m128i&() { return mm(); }
  __m128i& mm() { return *reinterpret_cast<__m128i*>(data()); }
  const __m128i& mm() const { return *reinterpret_cast<const __m128i*>(data()); }
  template <typename T> T* as() { return reinterpret_cast<T*>(data()); }
  template <typename T> const T* as() const { return reinterpret_cast<const T*>(data()); }
  block operator^(const block& r) const { return mm() ^ r.mm(); }
  block& operator^=(const block& r) { mm() = mm() ^ r.mm(); return *this; }
  block operator&(const block& r) const { return mm() & r.mm(); }
  block& operator&=(const block& r) { mm() = mm() & r.mm(); return *this; }
  block operator|(const block& r) const { return mm() | r.mm(); }
  block& operator|=(const block& r) { mm() = mm() | r.mm(); return *this; }
  block operator<<(uint8_t n) const { return _mm_slli_epi64(mm(), n); }
  block& operator<<=(uint8_t n) { mm() = _mm_slli_epi64(mm(), n); return *this; }
  block operator>>(uint8_t n) const { return _mm_srli_epi64(mm(), n); }
  block& operator>>=(uint8_t n) { mm() = _mm_srli_epi64(mm(), n); return *this; }
  block operator+(const block& r) const { return _mm_add_epi64(mm(), r.mm()); }
  block operator-(const block& r) const { return _mm_sub_epi64(mm(), r.mm()); }
};
inline block operator^(const block& a, uint128_t b) { return a ^ block(b); }
inline bool operator==(const block& a, const block& b) { return a[0] == b[0] && a[1] == b[1]; }
}  // namespace yacl
