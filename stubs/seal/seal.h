#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <array>
#include <iostream>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include <type_traits>
#include <unordered_map>
#include "gsl/span"
#define SEAL_VERSION "4.1"
#define SEAL_BYTE std::byte
#define SEAL_COEFF_MOD_COUNT_MAX 64
#define SEAL_MOD_BIT_COUNT_MAX 61
namespace seal {
using seal_byte = std::byte; using parms_id_type = std::array<uint64_t, 4>; inline constexpr parms_id_type parms_id_zero{};
enum class compr_mode_type : uint8_t { none = 0, zlib = 1, zstd = 2 }; enum class scheme_type : uint8_t { none, bfv, ckks, bgv }; enum class sec_level_type { none, tc128, tc192, tc256 };
struct Serialization { static constexpr compr_mode_type compr_mode_default = compr_mode_type::zstd; };
enum class mm_prof_opt : uint64_t { mm_default, mm_force_global, mm_force_new, mm_force_thread_local }; inline constexpr mm_prof_opt mm_force_new = mm_prof_opt::mm_force_new;
class MemoryPoolHandle { public: static MemoryPoolHandle New(bool = false); static MemoryPoolHandle Global(); operator bool() const; }; struct MemoryManager { static MemoryPoolHandle GetPool(mm_prof_opt = mm_prof_opt::mm_default, bool = false); };
class Modulus { public: Modulus(uint64_t = 0); uint64_t value() const; int bit_count() const; size_t uint64_count() const; const std::array<uint64_t, 3>& const_ratio() const; bool is_zero() const; bool is_prime() const; uint64_t reduce(uint64_t) const; const uint64_t* data() const; bool operator==(const Modulus&) const; bool operator==(uint64_t) const; };
struct CoeffModulus { static std::vector<Modulus> BFVDefault(size_t, sec_level_type = sec_level_type::tc128); static std::vector<Modulus> Create(size_t, std::vector<int>); static int MaxBitCount(size_t); }; struct PlainModulus { static Modulus Batching(size_t, int); };
class EncryptionParameters { public: EncryptionParameters(scheme_type = scheme_type::none); void set_poly_modulus_degree(size_t); void set_coeff_modulus(const std::vector<Modulus>&); void set_plain_modulus(const Modulus&); void set_plain_modulus(uint64_t); size_t poly_modulus_degree() const; const std::vector<Modulus>& coeff_modulus() const; const Modulus& plain_modulus() const; scheme_type scheme() const; const parms_id_type& parms_id() const; std::streamoff save(std::ostream&, compr_mode_type = compr_mode_type::none) const; std::streamoff load(std::istream&); bool operator==(const EncryptionParameters&) const; };
template <typename T> class DynArray { public: DynArray(MemoryPoolHandle = {}); explicit DynArray(size_t, MemoryPoolHandle = {}); T& operator[](size_t); const T& operator[](size_t) const; T& at(size_t); size_t size() const; void resize(size_t, bool = true); T* begin(); T* end(); const T* begin() const; const T* end() const; void reserve(size_t); const T* cbegin() const; const T* cend() const; gsl::span<T> span(); gsl::span<const T> span() const; };
class SEALContext { public: class ContextData { public: const EncryptionParameters& parms() const; const parms_id_type& parms_id() const; std::shared_ptr<const ContextData> next_context_data() const; std::shared_ptr<const ContextData> prev_context_data() const; size_t chain_index() const; int total_coeff_modulus_bit_count() const; const uint64_t* coeff_div_plain_modulus() const; struct Q { bool using_batching; bool using_fast_plain_lift; }; const Q& qualifiers() const; }; SEALContext(const EncryptionParameters&, bool = true, sec_level_type = sec_level_type::tc128); bool parameters_set() const; bool using_keyswitching() const; std::shared_ptr<const ContextData> first_context_data() const; std::shared_ptr<const ContextData> key_context_data() const; std::shared_ptr<const ContextData> last_context_data() const; std::shared_ptr<const ContextData> get_context_data(parms_id_type) const; const parms_id_type& first_parms_id() const; const parms_id_type& last_parms_id() const; const parms_id_type& key_parms_id() const; const char* parameter_error_message() const; };
class Ciphertext { public: Ciphertext(MemoryPoolHandle = {}); explicit Ciphertext(const SEALContext&, MemoryPoolHandle = {}); Ciphertext(const SEALContext&, parms_id_type, MemoryPoolHandle = {}); Ciphertext(const SEALContext&, parms_id_type, size_t, MemoryPoolHandle = {}); size_t size() const; void resize(size_t); void resize(const SEALContext&, size_t); void resize(const SEALContext&, parms_id_type, size_t); size_t poly_modulus_degree() const; size_t coeff_modulus_size() const; uint64_t* data(size_t = 0); const uint64_t* data(size_t = 0) const; bool is_ntt_form() const; bool& is_ntt_form(); const parms_id_type& parms_id() const; parms_id_type& parms_id(); uint64_t& operator[](size_t); std::streamoff save(std::ostream&, compr_mode_type = compr_mode_type::none) const; std::streamoff load(const SEALContext&, std::istream&); std::streamoff load(const SEALContext&, const seal_byte*, size_t); std::streamoff save(seal_byte*, size_t, compr_mode_type = compr_mode_type::none) const; std::streamoff save_size(compr_mode_type = compr_mode_type::none) const; std::streamoff unsafe_load(const SEALContext&, std::istream&); std::streamoff unsafe_load(const SEALContext&, const seal_byte*, size_t); MemoryPoolHandle pool() const; bool is_transparent() const; };
class Plaintext { public: Plaintext(MemoryPoolHandle = {}); explicit Plaintext(size_t, MemoryPoolHandle = {}); explicit Plaintext(const std::string&, MemoryPoolHandle = {}); void resize(size_t); size_t coeff_count() const; size_t significant_coeff_count() const; size_t nonzero_coeff_count() const; uint64_t& operator[](size_t); const uint64_t& operator[](size_t) const; uint64_t* data(); const uint64_t* data() const; uint64_t* data(size_t); void set_zero(); bool is_zero() const; bool is_ntt_form() const; std::string to_string() const; const parms_id_type& parms_id() const; std::streamoff save(std::ostream&, compr_mode_type = compr_mode_type::none) const; std::streamoff load(const SEALContext&, std::istream&); std::streamoff load(const SEALContext&, const seal_byte*, size_t); std::streamoff save(seal_byte*, size_t, compr_mode_type = compr_mode_type::none) const; std::streamoff save_size(compr_mode_type = compr_mode_type::none) const; std::streamoff unsafe_load(const SEALContext&, std::istream&); std::streamoff unsafe_load(const SEALContext&, const seal_byte*, size_t); size_t capacity() const; Plaintext& operator=(const std::string&); };
template <typename T> class Serializable { public: std::streamoff save(std::ostream&, compr_mode_type = compr_mode_type::none) const; std::streamoff save(seal_byte*, size_t, compr_mode_type = compr_mode_type::none) const; std::streamoff save_size(compr_mode_type = compr_mode_type::none) const; };
class PublicKey { public: std::streamoff save(std::ostream&, compr_mode_type = compr_mode_type::none) const; std::streamoff load(const SEALContext&, std::istream&); }; class SecretKey { public: const Plaintext& data() const; Plaintext& data(); std::streamoff save(std::ostream&, compr_mode_type = compr_mode_type::none) const; std::streamoff load(const SEALContext&, std::istream&); }; class KSwitchKeys { public: std::streamoff save(std::ostream&, compr_mode_type = compr_mode_type::none) const; std::streamoff load(const SEALContext&, std::istream&); std::streamoff unsafe_load(const SEALContext&, std::istream&); std::streamoff unsafe_load(const SEALContext&, const seal_byte*, size_t); std::streamoff load(const SEALContext&, const seal_byte*, size_t); }; class RelinKeys : public KSwitchKeys {}; class GaloisKeys : public KSwitchKeys {};
class KeyGenerator { public: explicit KeyGenerator(const SEALContext&); KeyGenerator(const SEALContext&, const SecretKey&); const SecretKey& secret_key() const; void create_public_key(PublicKey&) const; Serializable<PublicKey> create_public_key() const; void create_relin_keys(RelinKeys&); Serializable<RelinKeys> create_relin_keys(); void create_galois_keys(GaloisKeys&); Serializable<GaloisKeys> create_galois_keys(); Serializable<GaloisKeys> create_galois_keys(const std::vector<uint32_t>&); void create_galois_keys(const std::vector<uint32_t>&, GaloisKeys&); };
class Encryptor { public: Encryptor(const SEALContext&, const PublicKey&); Encryptor(const SEALContext&, const SecretKey&); Encryptor(const SEALContext&, const PublicKey&, const SecretKey&); void set_secret_key(const SecretKey&); void encrypt(const Plaintext&, Ciphertext&, MemoryPoolHandle = {}) const; Serializable<Ciphertext> encrypt(const Plaintext&, MemoryPoolHandle = {}) const; void encrypt_symmetric(const Plaintext&, Ciphertext&, MemoryPoolHandle = {}) const; Serializable<Ciphertext> encrypt_symmetric(const Plaintext&, MemoryPoolHandle = {}) const; void encrypt_zero_symmetric(Ciphertext&, MemoryPoolHandle = {}) const; void encrypt_zero(Ciphertext&, MemoryPoolHandle = {}) const; Serializable<Ciphertext> encrypt_zero_symmetric(MemoryPoolHandle = {}) const; };
class Decryptor { public: Decryptor(const SEALContext&, const SecretKey&); void decrypt(const Ciphertext&, Plaintext&); int invariant_noise_budget(const Ciphertext&); };
class BatchEncoder { public: explicit BatchEncoder(const SEALContext&); void encode(const std::vector<uint64_t>&, Plaintext&) const; void decode(const Plaintext&, std::vector<uint64_t>&, MemoryPoolHandle = {}) const; void encode(gsl::span<const uint64_t>, Plaintext&) const; void decode(const Plaintext&, gsl::span<uint64_t>, MemoryPoolHandle = {}) const; size_t slot_count() const; };
class Evaluator { public: explicit Evaluator(const SEALContext&);
#define SE_OP(n) template <typename... A> void n(A&&...) const
SE_OP(negate); SE_OP(negate_inplace); SE_OP(add); SE_OP(add_inplace); SE_OP(add_many); SE_OP(sub); SE_OP(sub_inplace); SE_OP(multiply); SE_OP(multiply_inplace); SE_OP(square); SE_OP(square_inplace); SE_OP(relinearize); SE_OP(relinearize_inplace); SE_OP(mod_switch_to_next); SE_OP(mod_switch_to_next_inplace); SE_OP(mod_switch_to); SE_OP(mod_switch_to_inplace); SE_OP(add_plain); SE_OP(add_plain_inplace); SE_OP(sub_plain); SE_OP(sub_plain_inplace); SE_OP(multiply_plain); SE_OP(multiply_plain_inplace); SE_OP(transform_to_ntt); SE_OP(transform_to_ntt_inplace); SE_OP(transform_from_ntt); SE_OP(transform_from_ntt_inplace); SE_OP(apply_galois); SE_OP(apply_galois_inplace); SE_OP(rotate_rows); SE_OP(rotate_rows_inplace); SE_OP(rotate_columns); SE_OP(rotate_columns_inplace); SE_OP(exponentiate_inplace);
#undef SE_OP
};
namespace util {
template <typename T, typename S> T safe_cast(S v) { return static_cast<T>(v); } template <typename T, typename... S> T mul_safe(T a, S...) { return a; } template <typename T, typename... S> T add_safe(T a, S...) { return a; } template <typename T> T sub_safe(T a, T b) { return a - b; } template <typename T, typename U> bool fits_in(U) { return true; } template <typename... T> bool unsigned_geq(T...) { return true; } template <typename T> T divide_round_up(T a, T b) { return (a + b - 1) / b; }
uint64_t exponentiate_uint(uint64_t, uint64_t); uint64_t exponentiate_uint_mod(uint64_t, uint64_t, const Modulus&); bool try_invert_uint_mod(uint64_t, const Modulus&, uint64_t&); bool try_invert_uint_mod(uint64_t, uint64_t, uint64_t&); template <typename T> void multiply_uint64(uint64_t, uint64_t, T*); template <typename T> void multiply_uint64_hw64(uint64_t, uint64_t, T*); bool try_primitive_root(uint64_t, const Modulus&, uint64_t&); bool try_minimal_primitive_root(uint64_t, const Modulus&, uint64_t&); uint64_t multiply_uint_mod(uint64_t, uint64_t, const Modulus&); uint64_t div2_uint_mod(uint64_t, const Modulus&); template <typename T> unsigned char add_uint64(uint64_t, uint64_t, T*); template <typename T, typename U> void set_uint(const T*, size_t, U*); template <typename T> T reverse_bits(T, int) ; int get_power_of_two(uint64_t); template <typename T, typename U> void divide_uint192_inplace(T*, uint64_t, U*); template <typename T> uint64_t barrett_reduce_128(const T*, const Modulus&); uint64_t barrett_reduce_64(uint64_t, const Modulus&); template <typename... A> void negacyclic_shift_poly_coeffmod(A&&...); uint64_t add_uint_mod(uint64_t, uint64_t, const Modulus&); uint64_t sub_uint_mod(uint64_t, uint64_t, const Modulus&); uint64_t negate_uint_mod(uint64_t, const Modulus&);
template <typename P> class StrideIter { public: StrideIter(P p, size_t s) : p_(p), s_(s) {} P ptr() const { return p_; } P p_; size_t s_; };
template <typename... A> struct IterT { std::tuple<A...> t; };
template <typename T> struct ElemRef { using type = T; }; template <typename T> struct ElemRef<std::vector<T>&> { using type = T&; };
template <typename... A> std::tuple<typename ElemRef<A>::type...>* iter(A&&...) { return nullptr; }
template <typename I, typename S, typename F> void seal_for_each_n(I i, S, F&& f) { f(*i); }
}
}

namespace seal { parms_id_type get_parms_id_for_chain_idx(const SEALContext&, size_t); }
