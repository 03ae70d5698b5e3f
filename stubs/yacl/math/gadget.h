#pragma once
#include <cstdint>
#include <cstddef>
namespace yacl::math {
inline uint64_t Log2Floor(uint64_t x) { uint64_t r = 0; while (x >>= 1) ++r; return r; }
inline uint64_t Log2Ceil(uint64_t x) { return x <= 1 ? 0 : Log2Floor(x - 1) + 1; }
inline constexpr uint64_t DivCeil(uint64_t a, uint64_t b) { return (a + b - 1) / b; }
inline constexpr uint64_t RoundUpTo(uint64_t a, uint64_t b) { return DivCeil(a, b) * b; }
}
