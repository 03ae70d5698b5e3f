#pragma once
#include <memory>
#include <openssl/sha.h>
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
class SslHash : public HashInterface { public: explicit SslHash(HashAlgorithm a) : a_(a) {} HashAlgorithm GetHashAlgorithm() const override { return a_; } size_t DigestSize() const override { return a_ == HashAlgorithm::SHA512 ? 64 : 32; } SslHash& Reset() override { s_.clear(); return *this; } SslHash& Update(ByteContainerView b) override { s_.append(reinterpret_cast<const char*>(b.data()), b.size()); return *this; }
  std::vector<uint8_t> CumulativeHash() const override { std::vector<uint8_t> r(DigestSize()); if (a_ == HashAlgorithm::SHA512) SHA512(reinterpret_cast<const uint8_t*>(s_.data()), s_.size(), r.data()); else SHA256(reinterpret_cast<const uint8_t*>(s_.data()), s_.size(), r.data()); return r; }
 private: HashAlgorithm a_; std::string s_; };
class Sha256Hash : public SslHash { public: Sha256Hash() : SslHash(HashAlgorithm::SHA256) {} };
class Sm3Hash : public SslHash { public: Sm3Hash() : SslHash(HashAlgorithm::SM3) {} };
}
