#pragma once
#include <cstdint>
#include <cstddef>
#include <ostream>
#include <string>
#include <utility>
using int128_t = __int128;
using uint128_t = unsigned __int128;
namespace yacl {
inline constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
inline constexpr uint128_t Uint128Min() { return 0; }
inline constexpr int128_t Int128Max() { return static_cast<int128_t>(~static_cast<uint128_t>(0) >> 1); }
inline constexpr uint128_t MakeUint128(uint64_t h, uint64_t l) { return (static_cast<uint128_t>(h) << 64) | l; }
inline constexpr int128_t MakeInt128(int64_t h, uint64_t l) { return static_cast<int128_t>((static_cast<uint128_t>(static_cast<uint64_t>(h)) << 64) | l); }
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) { return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)}; }
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) { return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)}; }
}  // namespace yacl
namespace std {
inline std::ostream& operator<<(std::ostream& os, uint128_t x) {
  std::string s; if (x == 0) s = "0";
  while (x) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(x % 10))); x /= 10; }
  return os << s;
}
}  // namespace std
