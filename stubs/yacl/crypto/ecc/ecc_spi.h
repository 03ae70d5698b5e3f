#pragma once
#include <memory>
#include <string>
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/crypto/ecc/ec_point.h"
#include "yacl/utils/spi/spi_factory.h"
namespace yacl::crypto {
struct CurveMeta { std::string standard; };
class EcGroup { public: virtual ~EcGroup() = default;
  virtual std::string GetCurveName() const = 0;
  virtual std::string GetLibraryName() const = 0;
  virtual yacl::math::MPInt GetOrder() const = 0;
  virtual yacl::math::MPInt GetField() const = 0;
  virtual EcPoint GetGenerator() const = 0;
  virtual EcPoint Add(const EcPoint&, const EcPoint&) const = 0;
  virtual EcPoint Sub(const EcPoint&, const EcPoint&) const = 0;
  virtual EcPoint MulBase(const yacl::math::MPInt&) const = 0;
  virtual EcPoint Mul(const EcPoint&, const yacl::math::MPInt&) const = 0;
  virtual EcPoint MulDoubleBase(const yacl::math::MPInt&, const yacl::math::MPInt&, const EcPoint&) const = 0;
  virtual EcPoint Negate(const EcPoint&) const = 0;
  virtual EcPoint CopyPoint(const EcPoint&) const = 0;
  virtual uint64_t GetSerializeLength(PointOctetFormat = PointOctetFormat::Autonomous) const = 0;
  virtual Buffer SerializePoint(const EcPoint&, PointOctetFormat = PointOctetFormat::Autonomous) const = 0;
  virtual void SerializePoint(const EcPoint&, PointOctetFormat, Buffer*) const = 0;
  virtual void SerializePoint(const EcPoint&, PointOctetFormat, uint8_t*, uint64_t) const = 0;
  virtual void SerializePoint(const EcPoint&, uint8_t*, uint64_t) const = 0;
  virtual EcPoint DeserializePoint(ByteContainerView, PointOctetFormat = PointOctetFormat::Autonomous) const = 0;
  virtual AffinePoint GetAffinePoint(const EcPoint&) const = 0;
  virtual EcPoint HashToCurve(HashToCurveStrategy, std::string_view, std::string_view = "") const = 0;
  virtual EcPoint HashToCurve(std::string_view) const = 0;
  virtual size_t HashPoint(const EcPoint&) const = 0;
  virtual bool PointEqual(const EcPoint&, const EcPoint&) const = 0;
  virtual bool IsInCurveGroup(const EcPoint&) const = 0;
  virtual bool IsInfinity(const EcPoint&) const = 0;
};
class EcGroupFactory { public: static EcGroupFactory& Instance(); template <typename... A> std::unique_ptr<EcGroup> Create(const std::string&, A&&...) ; };
}
