#pragma once
#include <array>
#include <string>
#include <variant>
#include <ostream>
#include <memory>
#include "yacl/math/mpint/mp_int.h"
#include "yacl/base/buffer.h"
namespace yacl::crypto {
using AnyPtr = std::shared_ptr<void>;
using Array32 = std::array<unsigned char, 32>;
using Array128 = std::array<unsigned char, 128>;
using Array160 = std::array<unsigned char, 160>;
struct AffinePoint { yacl::math::MPInt x, y; AffinePoint() = default; AffinePoint(yacl::math::MPInt a, yacl::math::MPInt b) : x(a), y(b) {} };
using EcPoint = std::variant<Array32, Array128, Array160, AnyPtr, AffinePoint>;
enum class PointOctetFormat : uint32_t { Autonomous, X962Uncompressed, X962Compressed, X962Hybrid };
enum class HashToCurveStrategy { Autonomous, HashAsPointX_SHA2, HashAsPointX_SHA3, HashAsPointX_SM, TryAndIncrement_SHA2, TryAndIncrement_SHA3, TryAndIncrement_SM, TryAndIncrement_BLAKE3, TryAndRehash_SHA2, TryAndRehash_SHA3, TryAndRehash_SM, TryAndRehash_BLAKE3, SHA256_SSWU_RO_ };
}
