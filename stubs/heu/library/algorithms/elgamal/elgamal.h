#pragma once
#include <memory>
#include <string>
#include "yacl/crypto/ecc/ecc_spi.h"
#include "yacl/math/mpint/mp_int.h"
#include "yacl/base/buffer.h"
namespace heu::lib::algorithms::elgamal {
using yacl::math::MPInt; using Plaintext = MPInt;
using CurveP = std::shared_ptr<yacl::crypto::EcGroup>;
class Ciphertext { public: Ciphertext() = default; Ciphertext(CurveP, yacl::crypto::EcPoint, yacl::crypto::EcPoint); static void EnableEcGroup(const CurveP&); yacl::Buffer Serialize(bool = false) const; void Deserialize(yacl::ByteContainerView); bool operator==(const Ciphertext&) const; bool operator!=(const Ciphertext&) const; std::string ToString() const; yacl::crypto::EcPoint c1, c2; CurveP ec; };
class PublicKey { public: PublicKey() = default; PublicKey(CurveP, yacl::crypto::EcPoint); const CurveP& GetCurve() const; const yacl::crypto::EcPoint& GetH() const; yacl::Buffer Serialize() const; void Deserialize(yacl::ByteContainerView); };
class SecretKey { public: SecretKey() = default; SecretKey(MPInt, CurveP); const MPInt& GetX() const; const CurveP& GetCurve() const; yacl::Buffer Serialize() const; void Deserialize(yacl::ByteContainerView); };
class KeyGenerator { public: static void Generate(const std::string&, SecretKey*, PublicKey*); };
class Evaluator { public: explicit Evaluator(const PublicKey&); Ciphertext Add(const Ciphertext&, const Ciphertext&) const; void AddInplace(Ciphertext*, const Ciphertext&) const; Ciphertext Mul(const Ciphertext&, const Plaintext&) const; void MulInplace(Ciphertext*, const Plaintext&) const; void Randomize(Ciphertext*) const; };
}
