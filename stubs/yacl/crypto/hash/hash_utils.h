#pragma once
#include <array>
#include <cstring>
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
inline std::array<uint8_t, 32> Sha256(ByteContainerView b) { std::array<uint8_t, 32> r{}; SHA256(b.data(), b.size(), r.data()); return r; }
inline std::array<uint8_t, 32> Sm3(ByteContainerView b) { return Sha256(b); }
inline std::vector<uint8_t> Blake3(ByteContainerView b) { auto a = Sha256(b); return {a.begin(), a.end()}; }
inline uint128_t Blake3_128(ByteContainerView b, uint128_t iv = 0) { auto a = Sha256(b); uint128_t v; std::memcpy(&v, a.data(), 16); return v ^ iv; }
inline uint64_t Blake3_64(ByteContainerView b, uint64_t iv = 0) { return static_cast<uint64_t>(Blake3_128(b)) ^ iv; }
inline std::vector<uint8_t> Blake2B(ByteContainerView b) { return Blake3(b); }
}
