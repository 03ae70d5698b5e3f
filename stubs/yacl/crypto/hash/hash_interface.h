#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
namespace yacl::crypto {
enum class HashAlgorithm : int { HASH_ALGORITHM_UNSPECIFIED, SHA224, SHA256, SHA384, SHA512, SHA_1, SM3, BLAKE2B, BLAKE3 };
class HashInterface { public: virtual ~HashInterface() = default; virtual HashAlgorithm GetHashAlgorithm() const = 0; virtual size_t DigestSize() const = 0; virtual HashInterface& Reset() = 0; virtual HashInterface& Update(ByteContainerView) = 0; virtual std::vector<uint8_t> CumulativeHash() const = 0; };
}
