#pragma once
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto { class Blake3Hash : public SslHash { public: Blake3Hash() : SslHash(HashAlgorithm::BLAKE3) {} explicit Blake3Hash(size_t) : SslHash(HashAlgorithm::BLAKE3) {} }; }
