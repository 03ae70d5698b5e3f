#pragma once
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/context.h"
namespace yacl::crypto {
OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>&, const dynamic_bitset<uint128_t>&, uint32_t);
OtSendStore BaseOtSend(const std::shared_ptr<link::Context>&, uint32_t);
}
