#pragma once
#include <cstdint>
namespace libdivide { struct libdivide_u64_t { uint64_t magic; uint8_t more; }; struct libdivide_u64_branchfree_t { uint64_t magic; uint8_t more; }; enum { LIBDIVIDE_64_SHIFT_MASK = 0x3F, LIBDIVIDE_ADD_MARKER = 0x40 }; libdivide_u64_t libdivide_u64_gen(uint64_t); libdivide_u64_branchfree_t libdivide_u64_branchfree_gen(uint64_t); uint64_t libdivide_u64_do(uint64_t, const libdivide_u64_t*); uint64_t libdivide_u64_branchfree_do(uint64_t, const libdivide_u64_branchfree_t*); uint64_t libdivide_mullhi_u64(uint64_t, uint64_t); template <typename T, int A = 0> class divider { public: divider() = default; divider(T d) : d_(d) {} T d_; divider& operator=(const divider&) = default; struct D { libdivide_u64_t denom; } div; }; template <typename T> T operator/(T n, const divider<T>& d) { return n / d.d_; } }
