#pragma once
#include <cstdint>
#include <string>
#include <ostream>
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
namespace yacl {
enum class Endian { native, big, little };
}
namespace yacl::math {
using yacl::Endian;
class MPInt { public:
  MPInt() = default; MPInt(const MPInt&) = default; MPInt& operator=(const MPInt&) = default;
  template <typename T, std::enable_if_t<std::is_integral_v<T>, bool> = true> MPInt(T v) : v_(static_cast<int64_t>(v)) {}
  template <typename T> MPInt(T v, size_t) : v_(static_cast<int64_t>(v)) {}
  explicit MPInt(const std::string&, size_t = 10) {}
  static MPInt _0_, _1_, _2_;
  MPInt operator+(const MPInt& o) const; MPInt operator-(const MPInt& o) const; MPInt operator*(const MPInt& o) const; MPInt operator/(const MPInt& o) const; MPInt operator%(const MPInt& o) const; MPInt operator-() const; MPInt operator<<(size_t) const; MPInt operator>>(size_t) const; MPInt operator&(const MPInt&) const; MPInt operator|(const MPInt&) const; MPInt operator^(const MPInt&) const;
  MPInt& operator+=(const MPInt& o); MPInt& operator-=(const MPInt& o); MPInt& operator*=(const MPInt& o); MPInt& operator%=(const MPInt&); MPInt& operator++(); MPInt& operator>>=(size_t); MPInt& operator<<=(size_t);
  bool operator==(const MPInt& o) const { return v_ == o.v_; } bool operator!=(const MPInt& o) const { return v_ != o.v_; } bool operator<(const MPInt& o) const { return v_ < o.v_; } bool operator>(const MPInt& o) const { return v_ > o.v_; } bool operator<=(const MPInt& o) const { return v_ <= o.v_; } bool operator>=(const MPInt& o) const { return v_ >= o.v_; }
  bool IsZero() const { return v_ == 0; } bool IsOne() const { return v_ == 1; } bool IsNegative() const { return v_ < 0; } bool IsPositive() const { return v_ > 0; } bool IsOdd() const { return v_ & 1; } size_t BitCount() const; int Compare(const MPInt&) const;
  MPInt AddMod(const MPInt&, const MPInt&) const; MPInt SubMod(const MPInt&, const MPInt&) const; MPInt MulMod(const MPInt&, const MPInt&) const; MPInt PowMod(const MPInt&, const MPInt&) const; MPInt InvertMod(const MPInt&) const; MPInt Mod(const MPInt&) const; MPInt Abs() const;
  static void AddMod(const MPInt&, const MPInt&, const MPInt&, MPInt*); static void SubMod(const MPInt&, const MPInt&, const MPInt&, MPInt*); static void MulMod(const MPInt&, const MPInt&, const MPInt&, MPInt*); static void PowMod(const MPInt&, const MPInt&, const MPInt&, MPInt*); static void InvertMod(const MPInt&, const MPInt&, MPInt*); static void Mod(const MPInt&, const MPInt&, MPInt*); static void Add(const MPInt&, const MPInt&, MPInt*); static void Mul(const MPInt&, const MPInt&, MPInt*); static void Sub(const MPInt&, const MPInt&, MPInt*); static void Div(const MPInt&, const MPInt&, MPInt*, MPInt*);
  static void RandomLtN(const MPInt&, MPInt*); static void RandomExactBits(size_t, MPInt*); static MPInt RandomLtN(const MPInt&);
  MPInt MulMod(const MPInt&, const MPInt&); 
  Buffer ToBytes(size_t, Endian = Endian::native) const; void ToBytes(uint8_t*, size_t, Endian = Endian::native) const; Buffer ToMagBytes(Endian = Endian::native) const; size_t ToMagBytes(uint8_t*, size_t, Endian = Endian::native) const; void FromMagBytes(ByteContainerView, Endian = Endian::native); Buffer Serialize() const; size_t Serialize(uint8_t*, size_t) const; void Deserialize(ByteContainerView);
  std::string ToString() const; std::string ToHexString() const; void Set(const std::string&, int = 0); void Set(int64_t); template <typename T> T Get() const { return static_cast<T>(v_); } template <typename T> T As() const { return static_cast<T>(v_); } uint8_t GetBit(int) const; void SetBit(int, uint8_t); int operator[](int) const; MPInt DecrOne(); void Negate(MPInt*) const; void NegateInplace();
 private: int64_t v_ = 0; };
std::ostream& operator<<(std::ostream&, const MPInt&);
inline MPInt operator""_mp(const char* s, size_t) { return MPInt(std::string(s)); }
inline MPInt operator""_mp(unsigned long long x) { return MPInt(x); }
}
