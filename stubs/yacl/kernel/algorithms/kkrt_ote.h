#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
using KkrtRow = std::array<uint128_t, 4>;
class IGroupPRF { public: virtual ~IGroupPRF() = default; virtual size_t Size() const = 0; virtual uint128_t Eval(size_t, uint128_t) = 0; virtual void CalcQ(size_t, uint128_t, uint8_t*, size_t) = 0; };
class KkrtOtExtSender { public: void Init(const std::shared_ptr<link::Context>&, const OtRecvStore&, uint64_t); void SetCorrection(const Buffer&, uint64_t); void SetBatchSize(uint64_t); uint64_t GetBatchSize() const; void RecvCorrection(const std::shared_ptr<link::Context>&, uint64_t); void Encode(uint64_t, uint128_t, void*, uint64_t); void Encode(uint64_t, uint64_t, uint128_t, void*, uint64_t); std::shared_ptr<IGroupPRF> GetOprf() const; };
class KkrtOtExtReceiver { public: void Init(const std::shared_ptr<link::Context>&, const OtSendStore&, uint64_t); void SetBatchSize(uint64_t); uint64_t GetBatchSize() const; Buffer ShiftCorrection(uint64_t); void SendCorrection(const std::shared_ptr<link::Context>&, uint64_t); void Encode(uint64_t, uint128_t, void*, uint64_t); void Encode(uint64_t, absl::Span<const uint128_t>, absl::Span<uint8_t>); void Encode(uint64_t, uint128_t, absl::Span<uint8_t>); void ZeroEncode(uint64_t); };
}
