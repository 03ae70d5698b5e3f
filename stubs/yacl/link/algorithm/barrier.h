#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
inline std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView input, std::string_view tag = "") {
  std::vector<Buffer> r(ctx->WorldSize());
  for (size_t i = 0; i < ctx->WorldSize(); ++i) if (i != ctx->Rank()) ctx->SendAsync(i, input, tag);
  for (size_t i = 0; i < ctx->WorldSize(); ++i) r[i] = i == ctx->Rank() ? Buffer(input) : ctx->Recv(i, tag);
  return r;
}
inline std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx, ByteContainerView input, size_t root, std::string_view tag = "") {
  std::vector<Buffer> r(ctx->WorldSize());
  if (ctx->Rank() != root) { ctx->SendAsync(root, input, tag); return {}; }
  for (size_t i = 0; i < ctx->WorldSize(); ++i) r[i] = i == root ? Buffer(input) : ctx->Recv(i, tag);
  return r;
}
inline Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView input, size_t root, std::string_view tag = "") {
  if (ctx->Rank() == root) { for (size_t i = 0; i < ctx->WorldSize(); ++i) if (i != root) ctx->SendAsync(i, input, tag); return Buffer(input); }
  return ctx->Recv(root, tag);
}
inline Buffer Scatter(const std::shared_ptr<Context>& ctx, const std::vector<ByteContainerView>& in, size_t root, std::string_view tag = "") {
  if (ctx->Rank() == root) { for (size_t i = 0; i < ctx->WorldSize(); ++i) if (i != root) ctx->SendAsync(i, in[i], tag); return Buffer(in[root]); }
  return ctx->Recv(root, tag);
}
inline void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag = "") { AllGather(ctx, ByteContainerView("", static_cast<size_t>(0)), tag); }
}  // namespace yacl::link
