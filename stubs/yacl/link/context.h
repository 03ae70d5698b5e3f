#pragma once
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <chrono>
#include "spdlog/spdlog.h"
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
namespace yacl::link {
inline constexpr size_t kAllRank = static_cast<size_t>(-1);
class SSLOptions {};
struct VerifyOptions { int verify_depth = 0; std::string ca_file_path; };
struct CertInfo { std::string certificate_path, private_key_path; };
struct SSLOptionsX { CertInfo cert; VerifyOptions verify; };
struct RetryOptions { uint32_t max_retry = 3; uint32_t retry_interval_ms = 1000; uint32_t retry_interval_incr_ms = 2000; uint32_t max_retry_interval_ms = 10000; std::vector<int> error_codes; std::vector<int> http_codes; bool aggressive_retry = true; };
struct ContextDesc {
  struct Party { std::string id; std::string host; bool operator==(const Party& p) const { return id == p.id; }
    Party() = default; Party(const std::string& a, const std::string& b) : id(a), host(b) {}
    template <typename P, std::enable_if_t<!std::is_same_v<std::decay_t<P>, Party>, bool> = true> explicit Party(const P& p) : id(p.id()), host(p.host()) {} };
  ContextDesc() = default;
  template <typename P, std::enable_if_t<!std::is_same_v<std::decay_t<P>, ContextDesc>, bool> = true> ContextDesc(const P&) {}
  std::string id = "root";
  std::vector<Party> parties;
  uint32_t connect_retry_times = 10;
  uint32_t connect_retry_interval_ms = 1000;
  uint64_t recv_timeout_ms = 30000;
  uint32_t http_max_payload_size = 512 * 1024;
  uint32_t http_timeout_ms = 20000;
  uint32_t throttle_window_size = 10;
  uint32_t chunk_parallel_send_size = 1;
  std::string brpc_channel_protocol = "baidu_std";
  std::string brpc_channel_connection_type;
  bool exit_if_async_error = true;
  bool enable_ssl = false;
  SSLOptionsX client_ssl_opts;
  SSLOptionsX server_ssl_opts;
  RetryOptions retry_opts;
  bool brpc_retry_aggressive = true;
};
struct Statistics { size_t sent_bytes = 0, sent_actions = 0, recv_bytes = 0, recv_actions = 0; };
// In-memory mesh shared by all parties of a world.
struct MemMesh {
  std::mutex mu; std::condition_variable cv;
  std::map<std::string, std::deque<Buffer>> q;
};
class Context {
 public:
  Context(ContextDesc desc, size_t rank, std::shared_ptr<MemMesh> mesh) : desc_(std::move(desc)), rank_(rank), mesh_(std::move(mesh)), id_(desc_.id), recv_timeout_ms_(desc_.recv_timeout_ms), stats_(std::make_shared<Statistics>()) {}
  std::string Id() const { return id_; }
  size_t WorldSize() const { return desc_.parties.size(); }
  size_t Rank() const { return rank_; }
  size_t PrevRank(size_t s = 1) const { return (rank_ + WorldSize() - s) % WorldSize(); }
  size_t NextRank(size_t s = 1) const { return (rank_ + s) % WorldSize(); }
  std::string PartyIdByRank(size_t r) const { return desc_.parties.at(r).id; }
  std::string PartyHostByRank(size_t r) const { return desc_.parties.at(r).host; }
  void ConnectToMesh() {}
  std::unique_ptr<Context> Spawn(const std::string& id = "") { auto d = desc_; d.id = id_ + "-" + (id.empty() ? std::to_string(child_++) : id); return std::make_unique<Context>(d, rank_, mesh_); }
  std::unique_ptr<Context> SubWorld(std::string_view sfx, const std::vector<std::string>& ids) { auto d = desc_; d.id = id_ + "-sub-" + std::string(sfx); d.parties.clear(); size_t r = 0; for (auto& i : ids) { for (auto& p : desc_.parties) if (p.id == i) { if (i == desc_.parties[rank_].id) r = d.parties.size(); d.parties.push_back(p); } } return std::make_unique<Context>(d, r, mesh_); }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag) { Put(dst, v, tag); }
  void SendAsync(size_t dst, Buffer&& v, std::string_view tag) { Put(dst, ByteContainerView(v), tag); }
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag) { Put(dst, v, tag); }
  void SendAsyncThrottled(size_t dst, Buffer&& v, std::string_view tag) { Put(dst, ByteContainerView(v), tag); }
  void Send(size_t dst, ByteContainerView v, std::string_view tag) { Put(dst, v, tag); }
  Buffer Recv(size_t src, std::string_view tag) { (void)tag;
    std::unique_lock<std::mutex> l(mesh_->mu); auto k = Key(desc_.parties[src].id, desc_.parties[rank_].id);
    if (!mesh_->cv.wait_for(l, std::chrono::milliseconds(recv_timeout_ms_), [&] { return !mesh_->q[k].empty(); })) throw IoError("Get data timeout");
    Buffer b = std::move(mesh_->q[k].front()); mesh_->q[k].pop_front(); return b; }
  void SendInternal(size_t dst, ByteContainerView v) { Put(dst, v, ""); }
  Buffer RecvInternal(size_t src) { return Recv(src, ""); }
  std::string NextP2PId(size_t, size_t) { return ""; }
  std::string NextId() { return ""; }
  void SetThrottleWindowSize(size_t) {}
  void SetRecvTimeout(uint64_t ms) { recv_timeout_ms_ = ms; }
  uint64_t GetRecvTimeout() const { return recv_timeout_ms_; }
  void SetChunkParallelSendSize(size_t) {}
  void WaitLinkTaskFinish() {}
  void PrintStats() {}
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  void Put(size_t dst, ByteContainerView v, std::string_view tag) {
    (void)tag; std::lock_guard<std::mutex> l(mesh_->mu); stats_->sent_bytes += v.size(); stats_->sent_actions++;
    mesh_->q[Key(desc_.parties[rank_].id, desc_.parties[dst].id)].emplace_back(v); mesh_->cv.notify_all(); }
 private:
  std::string Key(const std::string& a, const std::string& b) const { return id_ + "|" + a + "|" + b; }
  ContextDesc desc_; size_t rank_; std::shared_ptr<MemMesh> mesh_; std::string id_; uint64_t recv_timeout_ms_; std::shared_ptr<Statistics> stats_; size_t child_ = 0;
};
class RecvTimeoutGuard {
 public:
  RecvTimeoutGuard(std::shared_ptr<Context> c, uint64_t ms) : c_(c), o_(c->GetRecvTimeout()) { c->SetRecvTimeout(ms); }
  ~RecvTimeoutGuard() { c_->SetRecvTimeout(o_); }
 private:
  std::shared_ptr<Context> c_; uint64_t o_;
};
}  // namespace yacl::link
