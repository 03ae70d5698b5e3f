#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
namespace yacl {
class Buffer;
class ByteContainerView final {
 public:
  using value_type = uint8_t;
  constexpr ByteContainerView() noexcept = default;
  template <typename B, std::enable_if_t<sizeof(B) == 1, bool> = true>
  ByteContainerView(const B* p, size_t n) : p_(reinterpret_cast<const uint8_t*>(p)), n_(n) {}
  ByteContainerView(const void* p, size_t n) : p_(reinterpret_cast<const uint8_t*>(p)), n_(n) {}
  ByteContainerView(const char* s) : p_(reinterpret_cast<const uint8_t*>(s)), n_(std::strlen(s)) {}
  template <typename C, std::enable_if_t<sizeof(typename std::remove_reference_t<C>::value_type) == 1, bool> = true>
  ByteContainerView(const C& c) : p_(reinterpret_cast<const uint8_t*>(c.data())), n_(c.size()) {}
  inline ByteContainerView(const Buffer& b);
  const uint8_t* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  const uint8_t* begin() const { return p_; }
  const uint8_t* end() const { return p_ + n_; }
  const uint8_t& operator[](size_t i) const { return p_[i]; }
  const uint8_t& back() const { return p_[n_ - 1]; }
  ByteContainerView subspan(size_t o, size_t c = static_cast<size_t>(-1)) const { return {p_ + o, c == static_cast<size_t>(-1) ? n_ - o : c}; }
  operator std::string() const { return {reinterpret_cast<const char*>(p_), n_}; }
  operator std::string_view() const { return {reinterpret_cast<const char*>(p_), n_}; }
  template <typename T, std::enable_if_t<sizeof(T) == 1, bool> = true>
  operator std::vector<T>() const { return std::vector<T>(begin(), end()); }
  bool operator==(const ByteContainerView& o) const { return n_ == o.n_ && std::memcmp(p_, o.p_, n_) == 0; }
  bool operator!=(const ByteContainerView& o) const { return !(*this == o); }
 private:
  const uint8_t* p_ = nullptr;
  size_t n_ = 0;
};

class Buffer final {
 public:
  Buffer() = default;
  explicit Buffer(int64_t size) { resize(size); }
  template <typename B, std::enable_if_t<sizeof(B) == 1, bool> = true>
  Buffer(const B* p, size_t size) : v_(reinterpret_cast<const uint8_t*>(p), reinterpret_cast<const uint8_t*>(p) + size) {}
  Buffer(const void* p, size_t size) : v_(reinterpret_cast<const uint8_t*>(p), reinterpret_cast<const uint8_t*>(p) + size) {}
  Buffer(const Buffer&) = default;
  Buffer(Buffer&&) = default;
  Buffer& operator=(const Buffer&) = default;
  Buffer& operator=(Buffer&&) = default;
  Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  Buffer(const ByteContainerView& s);
  template <typename T = void> T* data() { return reinterpret_cast<T*>(v_.data()); }
  template <typename T = void> const T* data() const { return reinterpret_cast<const T*>(v_.data()); }
  int64_t size() const { return static_cast<int64_t>(v_.size()); }
  bool empty() const { return v_.empty(); }
  int64_t capacity() const { return static_cast<int64_t>(v_.capacity()); }
  void resize(int64_t n) { v_.resize(n); }
  void reserve(int64_t n) { v_.reserve(n); }
  void reset() { v_.clear(); }
  void* release() { return nullptr; }
  operator std::string_view() const { return {reinterpret_cast<const char*>(v_.data()), v_.size()}; }
  bool operator==(const Buffer& o) const { return v_ == o.v_; }
  bool operator!=(const Buffer& o) const { return v_ != o.v_; }
 private:
  std::vector<uint8_t> v_;
};

inline Buffer::Buffer(const ByteContainerView& s) : Buffer(s.data(), s.size()) {}
inline ByteContainerView::ByteContainerView(const Buffer& b) : p_(b.data<uint8_t>()), n_(b.size()) {}
}  // namespace yacl
