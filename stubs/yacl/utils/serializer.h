#pragma once
#include <cstring>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
namespace yacl {
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof(v)); }
inline uint128_t DeserializeUint128(ByteContainerView b) { if (b.size() != sizeof(uint128_t)) ThrowEnforceNotMet(); uint128_t v; std::memcpy(&v, b.data(), sizeof(v)); return v; }
inline Buffer SerializeInt128(int128_t v) { return Buffer(&v, sizeof(v)); }
inline int128_t DeserializeInt128(ByteContainerView b) { if (b.size() != sizeof(int128_t)) ThrowEnforceNotMet(); int128_t v; std::memcpy(&v, b.data(), sizeof(v)); return v; }
inline Buffer SerializeArrayOfBuffers(const std::vector<ByteContainerView>& in) {
  std::string s; uint64_t n = in.size(); s.append(reinterpret_cast<char*>(&n), 8);
  for (auto& b : in) { uint64_t l = b.size(); s.append(reinterpret_cast<char*>(&l), 8); s.append(reinterpret_cast<const char*>(b.data()), l); }
  return Buffer(s); }
inline std::vector<Buffer> DeserializeArrayOfBuffers(ByteContainerView b) {
  size_t o = 0; auto rd = [&] { if (o + 8 > b.size()) ThrowEnforceNotMet(); uint64_t v; std::memcpy(&v, b.data() + o, 8); o += 8; return v; };
  uint64_t n = rd(); std::vector<Buffer> r; for (uint64_t i = 0; i < n; ++i) { uint64_t l = rd(); if (l > b.size() - o) ThrowEnforceNotMet(); r.emplace_back(b.data() + o, l); o += l; } return r; }
namespace stub_ser {
template <typename T, typename E = void> struct S { static void W(std::string& s, const T& t) { static_assert(std::is_trivially_copyable_v<T>); s.append(reinterpret_cast<const char*>(&t), sizeof(T)); }
  static T R(const ByteContainerView& b, size_t& o) { if (o + sizeof(T) > b.size()) ThrowEnforceNotMet(); T t; std::memcpy(&t, b.data() + o, sizeof(T)); o += sizeof(T); return t; } };
template <> struct S<std::string> { static void W(std::string& s, const std::string& t) { S<uint64_t>::W(s, t.size()); s += t; }
  static std::string R(const ByteContainerView& b, size_t& o) { uint64_t n = S<uint64_t>::R(b, o); if (n > b.size() - o) ThrowEnforceNotMet(); std::string r(reinterpret_cast<const char*>(b.data()) + o, n); o += n; return r; } };
template <typename T> struct S<std::vector<T>> { static void W(std::string& s, const std::vector<T>& t) { S<uint64_t>::W(s, t.size()); for (const auto& x : t) S<T>::W(s, x); }
  static std::vector<T> R(const ByteContainerView& b, size_t& o) { uint64_t n = S<uint64_t>::R(b, o); std::vector<T> r; for (uint64_t i = 0; i < n; ++i) r.push_back(S<T>::R(b, o)); return r; } };
}
template <typename... T> inline Buffer SerializeVars(const T&... t) { std::string s; (stub_ser::S<T>::W(s, t), ...); return Buffer(s); }
template <typename... T> inline size_t SerializeVarsTo(uint8_t* buf, size_t sz, const T&... t) { std::string s; (stub_ser::S<T>::W(s, t), ...); if (s.size() > sz) ThrowEnforceNotMet(); std::memcpy(buf, s.data(), s.size()); return s.size(); }
template <typename T> inline T DeserializeVars(ByteContainerView b) { size_t o = 0; return stub_ser::S<T>::R(b, o); }
template <typename... T> inline void DeserializeVarsTo(ByteContainerView b, T*... t) { size_t o = 0; ((*t = stub_ser::S<T>::R(b, o)), ...); }
}  // namespace yacl
