#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
enum class CodeType { Silver5, Silver11, ExAcc7, ExAcc11, ExAcc21, ExAcc40 };
class SilentVoleSender { public: explicit SilentVoleSender(CodeType, bool = false); template <typename T, typename K> void Send(const std::shared_ptr<link::Context>&, absl::Span<T>); template <typename T> void Send(const std::shared_ptr<link::Context>& c, absl::Span<T> o) { (void)c; (void)o; } template <typename T> void SfSend(const std::shared_ptr<link::Context>&, absl::Span<T>); uint128_t GetDelta() const; template <typename T> void SendWithDelta(const std::shared_ptr<link::Context>&, absl::Span<T>); };
class SilentVoleReceiver { public: explicit SilentVoleReceiver(CodeType, bool = false); template <typename T, typename K> void Recv(const std::shared_ptr<link::Context>& c, absl::Span<T> a, absl::Span<K> b) { (void)c; (void)a; (void)b; } template <typename T, typename K> void SfRecv(const std::shared_ptr<link::Context>&, absl::Span<T>, absl::Span<K>); };
}
