#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
OtRecvStore IknpOtExtRecv(const std::shared_ptr<link::Context>&, const OtSendStore&, const dynamic_bitset<uint128_t>&, uint32_t, bool = false);
OtSendStore IknpOtExtSend(const std::shared_ptr<link::Context>&, const OtRecvStore&, uint32_t, bool = false);
}
