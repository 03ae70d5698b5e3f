#pragma once
#include <array>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <iterator>
#include <numeric>
#include <thread>
#include <cstdint>
#include <functional>
#include <future>
#include <iostream>
#include <memory>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "gsl/span"
#include "seal/seal.h"
#define STOPWATCH(...) ((void)0)
#define APSI_LOG_STUB(x) { std::stringstream apsi_log_ss; apsi_log_ss << x; ::apsi::Log::Emit(apsi_log_ss.str()); }
#define APSI_LOG_DEBUG(x) APSI_LOG_STUB(x)
#define APSI_LOG_INFO(x) APSI_LOG_STUB(x)
#define APSI_LOG_WARNING(x) APSI_LOG_STUB(x)
#define APSI_LOG_ERROR(x) APSI_LOG_STUB(x)
namespace kuku { using item_type = std::array<unsigned char, 16>; using location_type = uint32_t; class QueryResult { public: location_type location() const; explicit operator bool() const; }; class KukuTable { public: template <typename... A> KukuTable(uint32_t, uint32_t, uint32_t, item_type, uint64_t, item_type); bool insert(const item_type&); bool is_empty_item(const item_type&) const; const item_type& leftover_item() const; double fill_rate() const; QueryResult query(const item_type&) const; const std::vector<item_type>& table() const; uint32_t table_size() const; uint32_t loc_func_count() const; }; }
namespace apsi {
struct Log { static void Emit(const std::string&); enum class Level { all, debug, info, warning, error, off }; static void SetLogLevel(const std::string&); static void SetLogFile(const std::string&); static void SetConsoleDisabled(bool); static void Terminate(); };
inline constexpr uint32_t apsi_serialization_version = 1; bool same_serialization_version(uint32_t); inline constexpr size_t label_key_byte_count = 16;
template <typename T> class BitstringView { public: BitstringView(gsl::span<T>, uint32_t); };
class Item { public: Item() = default; Item(const std::string&); Item(uint64_t, uint64_t); std::string to_string() const; template <typename T> gsl::span<const T> get_as() const; bool operator==(const Item&) const; const std::array<unsigned char, 16>& value() const; }; class HashedItem : public Item { public: using Item::Item; uint64_t low_word() const; uint64_t high_word() const; };
using Label = std::vector<unsigned char>; using EncryptedLabel = std::vector<unsigned char>; using LabelKey = std::array<unsigned char, label_key_byte_count>;
class PSIParams { public: struct ItemParams { uint32_t felts_per_item; }; struct TableParams { uint32_t table_size, max_items_per_bin, hash_func_count; }; struct QueryParams { uint32_t ps_low_degree; std::set<uint32_t> query_powers; }; struct SEALParams : seal::EncryptionParameters {}; PSIParams(const ItemParams&, const TableParams&, const QueryParams&, const SEALParams&); const ItemParams& item_params() const; const TableParams& table_params() const; const QueryParams& query_params() const; const SEALParams& seal_params() const; uint32_t items_per_bundle() const; uint32_t bins_per_bundle() const; uint32_t bundle_idx_count() const; uint32_t item_bit_count() const; uint32_t item_bit_count_per_felt() const; std::string to_string() const; size_t save(std::ostream&) const; static std::pair<PSIParams, size_t> Load(std::istream&); static PSIParams Load(const std::string&); double log2_fpp() const; };
class PowersDag { public: struct PowersNode { uint32_t power; uint32_t depth; std::pair<uint32_t, uint32_t> parents; bool is_source() const; }; bool configure(std::set<uint32_t>, std::set<uint32_t>); bool is_configured() const; uint32_t depth() const; std::set<uint32_t> target_powers() const; std::set<uint32_t> source_nodes() const; template <typename F> void apply(F&& f) const { f(PowersNode{}); } template <typename F> void parallel_apply(F&& f) const { f(PowersNode{}); } };
class CryptoContext { public: CryptoContext() = default; CryptoContext(const PSIParams&); void set_secret(const seal::SecretKey&); void set_evaluator(); void set_evaluator(const seal::RelinKeys&); std::shared_ptr<seal::SEALContext> seal_context() const; std::shared_ptr<seal::RelinKeys> relin_keys() const; std::shared_ptr<seal::SecretKey> secret_key() const; std::shared_ptr<seal::Encryptor> encryptor() const; std::shared_ptr<seal::Decryptor> decryptor() const; std::shared_ptr<seal::Evaluator> evaluator() const; std::shared_ptr<seal::BatchEncoder> encoder() const; };
template <typename T> class SEALObject { public: SEALObject() = default; SEALObject(T); SEALObject(seal::Serializable<T>); T extract(std::shared_ptr<seal::SEALContext>) const; void set(T); void set(seal::Serializable<T>); void clear(); size_t save(std::ostream&, seal::compr_mode_type) const; };
class ThreadPool { public: template <typename F, typename... A> auto enqueue(F&& f, A&&... a) -> std::future<decltype(f(a...))> { return std::async(std::forward<F>(f), std::forward<A>(a)...); } }; class ThreadPoolMgr { public: static size_t GetThreadCount(); static void SetThreadCount(size_t); static void SetPhysThreadCount(size_t); ThreadPool& thread_pool() const; };
namespace util { class Stopwatch { public: struct TimespanSummary { std::string event_name; int event_count; double avg; uint64_t min; uint64_t max; }; struct Timepoint { std::string event_name; std::chrono::time_point<std::chrono::steady_clock> time_point; }; using time_unit = std::chrono::time_point<std::chrono::steady_clock>; static const time_unit start_time;  template <typename A> void get_timespans(A&) const; template <typename A> void get_events(A&) const; static int get_max_timespan_event_name_length(); static int get_max_event_name_length(); template <typename T> void get_timespans(T&); template <typename T> void get_events(T&); void add_event(const std::string&);  }; extern Stopwatch sender_stopwatch; extern Stopwatch recv_stopwatch; using felt_t = uint64_t; using AlgItem = std::vector<felt_t>; using AlgLabel = std::vector<felt_t>; std::set<uint32_t> create_powers_set(uint32_t, uint32_t); template <typename T> std::string to_string(const T&); template <typename A, typename B> void copy_bytes(const A*, size_t, B*); std::vector<felt_t> bits_to_field_elts(BitstringView<const unsigned char>, const seal::Modulus&); EncryptedLabel dealgebraize_label(const AlgLabel&, size_t, const seal::Modulus&); Label decrypt_label(const EncryptedLabel&, const LabelKey&, size_t); template <typename T> size_t read_from_stream(std::istream&, T&); std::vector<unsigned char> read_from_stream(std::istream&); }
namespace oprf { inline constexpr size_t oprf_item_size = 16, oprf_query_size = 32, oprf_response_size = 32, oprf_key_size = 32, oprf_hash_size = 32;
class ECPoint { public: static constexpr size_t save_size = 32, point_size = 32, order_size = 32, hash_size = 32; using scalar_type = std::array<unsigned char, 32>; using scalar_span_type = gsl::span<unsigned char, 32>; using scalar_span_const_type = gsl::span<const unsigned char, 32>; using point_save_span_type = gsl::span<unsigned char, 32>; using point_save_span_const_type = gsl::span<const unsigned char, 32>; using hash_span_type = gsl::span<unsigned char, 32>; ECPoint() = default; ECPoint(gsl::span<const unsigned char>); static void MakeRandomNonzeroScalar(scalar_span_type); static void InvertScalar(scalar_span_const_type, scalar_span_type); bool scalar_multiply(scalar_span_const_type, bool); ECPoint& operator=(const ECPoint&); void save(std::ostream&) const; void load(std::istream&); void save(point_save_span_type) const; void load(point_save_span_const_type); void extract_hash(hash_span_type) const; };
class OPRFKey { public: OPRFKey() = default; void create(); void clear(); void save(std::ostream&) const; void load(std::istream&); void save(gsl::span<unsigned char, 32>) const; void load(gsl::span<const unsigned char, 32>); gsl::span<const unsigned char, 32> key_span() const; friend bool operator==(const OPRFKey&, const OPRFKey&); friend bool operator!=(const OPRFKey&, const OPRFKey&); };
class OPRFSender { public: static std::vector<unsigned char> ProcessQueries(gsl::span<const unsigned char>, const OPRFKey&); template <typename T> static std::vector<unsigned char> ProcessQueries(const T&, const OPRFKey&); static HashedItem GetItemHash(const Item&, const OPRFKey&); static std::pair<HashedItem, LabelKey> GetItemHashKey(const Item&, const OPRFKey&); static std::vector<HashedItem> ComputeHashes(const gsl::span<const Item>&, const OPRFKey&); };
class OPRFReceiver { public: OPRFReceiver(gsl::span<const Item>); OPRFReceiver(const std::vector<Item>&); size_t item_count() const; void process_responses(gsl::span<const unsigned char>, gsl::span<HashedItem>, gsl::span<LabelKey>) const; template <typename A, typename B, typename C> void process_responses(const A&, B&, C&) const; std::vector<unsigned char> query_data() const; void clear(); void set_item_count(size_t); }; }
namespace network {
enum class SenderOperationType : uint32_t { sop_unknown = 0, sop_parms = 1, sop_oprf = 2, sop_query = 3 }; const char* sender_operation_type_str(SenderOperationType); struct SenderOperationHeader { uint32_t version = apsi_serialization_version; SenderOperationType type = SenderOperationType::sop_unknown; size_t save(std::ostream&) const; size_t load(std::istream&); };
class SenderOperation { public: virtual ~SenderOperation() = default; virtual size_t save(std::ostream&) const = 0; virtual size_t load(std::istream&, std::shared_ptr<seal::SEALContext> = nullptr) = 0; virtual SenderOperationType type() const noexcept = 0; };
class SenderOperationParms final : public SenderOperation { public: size_t save(std::ostream&) const override; size_t load(std::istream&, std::shared_ptr<seal::SEALContext> = nullptr) override; SenderOperationType type() const noexcept override; }; class SenderOperationOPRF final : public SenderOperation { public: size_t save(std::ostream&) const override; size_t load(std::istream&, std::shared_ptr<seal::SEALContext> = nullptr) override; SenderOperationType type() const noexcept override; std::vector<unsigned char> data; uint32_t bucket_idx; }; class SenderOperationQuery final : public SenderOperation { public: size_t save(std::ostream&) const override; size_t load(std::istream&, std::shared_ptr<seal::SEALContext> = nullptr) override; SenderOperationType type() const noexcept override; SEALObject<seal::RelinKeys> relin_keys; std::unordered_map<uint32_t, std::vector<SEALObject<seal::Ciphertext>>> data; seal::compr_mode_type compr_mode; uint32_t bucket_idx; };
class SenderOperationResponse { public: virtual ~SenderOperationResponse() = default; virtual size_t save(std::ostream&) const = 0; virtual size_t load(std::istream&) = 0; virtual SenderOperationType type() const noexcept = 0; };
class SenderOperationResponseParms final : public SenderOperationResponse { public: size_t save(std::ostream&) const override; size_t load(std::istream&) override; SenderOperationType type() const noexcept override; std::unique_ptr<PSIParams> params; }; class SenderOperationResponseOPRF final : public SenderOperationResponse { public: size_t save(std::ostream&) const override; size_t load(std::istream&) override; SenderOperationType type() const noexcept override; std::vector<unsigned char> data; uint32_t bucket_idx; }; class SenderOperationResponseQuery final : public SenderOperationResponse { public: size_t save(std::ostream&) const override; size_t load(std::istream&) override; SenderOperationType type() const noexcept override; uint32_t package_count; uint32_t bucket_idx; };
struct PlainResultPackage { uint32_t bundle_idx, cache_idx; std::vector<uint64_t> psi_result; uint32_t label_byte_count, nonce_byte_count; std::vector<std::vector<uint64_t>> label_result; }; class ResultPackage { public: virtual ~ResultPackage() = default; size_t save(std::ostream&) const; size_t load(std::istream&, std::shared_ptr<seal::SEALContext>); PlainResultPackage extract(const CryptoContext&); uint32_t bundle_idx, cache_idx; SEALObject<seal::Ciphertext> psi_result; uint32_t label_byte_count, nonce_byte_count; std::vector<SEALObject<seal::Ciphertext>> label_result; seal::compr_mode_type compr_mode; };
class Channel { public: virtual ~Channel() = default; virtual void send(std::unique_ptr<SenderOperation>) = 0; virtual std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType = SenderOperationType::sop_unknown) = 0; virtual void send(std::unique_ptr<SenderOperationResponse>) = 0; virtual std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType = SenderOperationType::sop_unknown) = 0; virtual void send(std::unique_ptr<ResultPackage>) = 0; virtual std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) = 0; uint64_t bytes_sent() const; uint64_t bytes_received() const; protected: std::atomic<uint64_t> bytes_sent_{0}, bytes_received_{0}; };
class NetworkChannel : public Channel {};
class StreamChannel : public Channel { public: StreamChannel(std::istream&, std::ostream&); StreamChannel(std::iostream&); void send(std::unique_ptr<SenderOperation>) override; std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType = SenderOperationType::sop_unknown) override; void send(std::unique_ptr<SenderOperationResponse>) override; std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType = SenderOperationType::sop_unknown) override; void send(std::unique_ptr<ResultPackage>) override; std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) override; };
struct ZMQSenderOperation { std::vector<unsigned char> client_id; std::unique_ptr<SenderOperation> sop; }; struct ZMQSenderOperationResponse { std::vector<unsigned char> client_id; std::unique_ptr<SenderOperationResponse> sop_response; }; struct ZMQResultPackage { std::vector<unsigned char> client_id; std::unique_ptr<ResultPackage> rp; };
class ZMQChannel : public NetworkChannel { public: void bind(const std::string&); void connect(const std::string&); void disconnect(); bool is_connected() const; void send(std::unique_ptr<SenderOperation>) override; std::unique_ptr<SenderOperation> receive_operation(std::shared_ptr<seal::SEALContext>, SenderOperationType = SenderOperationType::sop_unknown) override; void send(std::unique_ptr<SenderOperationResponse>) override; std::unique_ptr<SenderOperationResponse> receive_response(SenderOperationType = SenderOperationType::sop_unknown) override; void send(std::unique_ptr<ResultPackage>) override; std::unique_ptr<ResultPackage> receive_result(std::shared_ptr<seal::SEALContext>) override; void send(std::unique_ptr<ZMQSenderOperationResponse>); void send(std::unique_ptr<ZMQResultPackage>); std::unique_ptr<ZMQSenderOperation> receive_network_operation(std::shared_ptr<seal::SEALContext>, bool = false, SenderOperationType = SenderOperationType::sop_unknown); }; class ZMQSenderChannel : public ZMQChannel {}; class ZMQReceiverChannel : public ZMQChannel {};
}
using Request = std::unique_ptr<network::SenderOperation>; using ParamsRequest = std::unique_ptr<network::SenderOperationParms>; using OPRFRequest = std::unique_ptr<network::SenderOperationOPRF>; using QueryRequest = std::unique_ptr<network::SenderOperationQuery>; using Response = std::unique_ptr<network::SenderOperationResponse>; using ParamsResponse = std::unique_ptr<network::SenderOperationResponseParms>; using OPRFResponse = std::unique_ptr<network::SenderOperationResponseOPRF>; using QueryResponse = std::unique_ptr<network::SenderOperationResponseQuery>; using ResultPart = std::unique_ptr<network::ResultPackage>;
template <typename T> Request to_request(std::unique_ptr<T>); ParamsRequest to_params_request(Request&); ParamsRequest to_params_request(Request&&); OPRFRequest to_oprf_request(Request&); OPRFRequest to_oprf_request(Request&&); QueryRequest to_query_request(Request&); QueryRequest to_query_request(Request&&); ParamsResponse to_params_response(Response&); ParamsResponse to_params_response(Response&&); OPRFResponse to_oprf_response(Response&); OPRFResponse to_oprf_response(Response&&); QueryResponse to_query_response(Response&); QueryResponse to_query_response(Response&&);

namespace receiver { class LabelData { public: bool has_data() const; template <typename T = unsigned char> gsl::span<const T> get_as() const; std::string to_string() const; void set(Label); explicit operator bool() const; }; class MatchRecord { public: bool found = false; LabelData label; explicit operator bool() const { return found; } }; class IndexTranslationTable { public: size_t find_item_idx(size_t) const; size_t item_count() const; size_t item_count_ = 0; std::unordered_map<size_t, size_t> table_idx_to_item_idx_; }; class PlaintextPowers { public: PlaintextPowers(std::vector<uint64_t>, const PSIParams&, const PowersDag&); std::unordered_map<uint32_t, SEALObject<seal::Ciphertext>> encrypt(const CryptoContext&); }; }
namespace sender { class BatchedPlaintextPolyn { public: std::vector<std::vector<unsigned char>> batched_coeffs; seal::Ciphertext eval(const std::vector<seal::Ciphertext>&, seal::MemoryPoolHandle&) const; seal::Ciphertext eval_patstock(const CryptoContext&, const std::vector<seal::Ciphertext>&, size_t, seal::MemoryPoolHandle&) const; }; struct BinBundleCache { BatchedPlaintextPolyn batched_matching_polyn; std::vector<BatchedPlaintextPolyn> batched_interp_polyns; };
class SenderDB { public: SenderDB(const PSIParams&, size_t = 0, size_t = 16, bool = true); SenderDB(const PSIParams&, const oprf::OPRFKey&, size_t = 0, size_t = 16, bool = true); void clear(); bool is_labeled() const; size_t get_label_byte_count() const; size_t get_nonce_byte_count() const; bool is_compressed() const; bool is_stripped() const; oprf::OPRFKey strip(); oprf::OPRFKey get_oprf_key() const; void set_data(const std::vector<std::pair<Item, Label>>&); void set_data(const std::vector<Item>&); bool has_item(const Item&) const; const PSIParams& get_params() const; CryptoContext get_crypto_context() const; std::shared_ptr<seal::SEALContext> get_seal_context() const; const std::unordered_set<HashedItem>& get_hashed_items() const; size_t get_item_count() const; size_t get_bin_bundle_count() const; size_t get_bin_bundle_count(uint32_t) const; double get_packing_rate() const; std::vector<std::reference_wrapper<const BinBundleCache>> get_cache_at(uint32_t); std::shared_lock<std::shared_mutex> get_reader_lock() const; size_t save(std::ostream&) const; static std::pair<SenderDB, size_t> Load(std::istream&); };
class Query { public: Query() = default; Query(QueryRequest, std::shared_ptr<SenderDB>); Query deep_copy() const; operator bool() const; bool is_valid() const; const seal::RelinKeys& relin_keys() const; const std::unordered_map<uint32_t, std::vector<seal::Ciphertext>>& data() const; const PowersDag& pd() const; std::shared_ptr<SenderDB> sender_db() const; seal::compr_mode_type compr_mode() const; }; }
}
