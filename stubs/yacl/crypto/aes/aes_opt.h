#pragma once
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
template <int N> void AES_opt_key_schedule(const uint128_t* user_key, AES_KEY* keys);
template <int K, int N> void ParaEnc(uint128_t* blks, AES_KEY* keys);
}
