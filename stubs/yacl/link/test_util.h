#pragma once
#include "yacl/link/link.h"
namespace yacl::link::test {
inline std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) {
  ContextDesc d; d.id = id; for (size_t i = 0; i < n; ++i) d.parties.emplace_back(fmt::format("id-{}", i), fmt::format("host:{}", i));
  auto mesh = std::make_shared<MemMesh>(); std::vector<std::shared_ptr<Context>> r;
  for (size_t i = 0; i < n; ++i) r.push_back(std::make_shared<Context>(d, i, mesh));
  return r; }
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("world", n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(size_t n) { return SetupWorld("world", n); }
}
