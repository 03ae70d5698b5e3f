#pragma once
#include <cstdint>
#include <cstddef>
#include <immintrin.h>
#include "yacl/base/exception.h"
#include "absl/types/span.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
struct AES_KEY { __m128i rd_key[11]; unsigned int rounds; };
AES_KEY AES_set_encrypt_key(uint128_t key);
void AES_set_encrypt_key(uint128_t key, AES_KEY* aes);
AES_KEY AES_set_decrypt_key(uint128_t key);
void AES_set_decrypt_key(uint128_t key, AES_KEY* aes);
void AES_ecb_decrypt_blks(absl::Span<uint128_t> in, const AES_KEY* key);
void AES_ecb_encrypt_blks(const AES_KEY& key, absl::Span<const uint128_t> in, absl::Span<uint128_t> out);
void AES_ecb_encrypt_blks(absl::Span<uint128_t> in, const AES_KEY* key);
template <int N> void AES_ecb_encrypt_blks(uint128_t* b, const AES_KEY* key);
void AES_ecb_decrypt_blks(const AES_KEY& key, absl::Span<const uint128_t> in, absl::Span<uint128_t> out);
}
