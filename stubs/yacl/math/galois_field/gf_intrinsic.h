#pragma once
#include "absl/types/span.h"
#include "yacl/base/int128.h"
namespace yacl::math { uint128_t GfMul128(uint128_t, uint128_t); uint128_t GfMul128(absl::Span<const uint128_t>, absl::Span<const uint128_t>); uint128_t Gf128Mul(uint128_t, uint128_t); uint128_t Gf128Inv(uint128_t); uint64_t Gf64Mul(uint64_t, uint64_t); uint64_t Gf64Inv(uint64_t); }
namespace yacl { using math::GfMul128; }
