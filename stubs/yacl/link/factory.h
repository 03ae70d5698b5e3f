#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
class FactoryMem { public: std::shared_ptr<Context> CreateContext(const ContextDesc& d, size_t rank) { static std::mutex m; static std::map<std::string, std::shared_ptr<MemMesh>> w; std::lock_guard<std::mutex> l(m); auto& x = w[d.id]; if (!x) x = std::make_shared<MemMesh>(); return std::make_shared<Context>(d, rank, x); } };
class FactoryBrpc : public FactoryMem {};
}
