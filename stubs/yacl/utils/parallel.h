#pragma once
#include <cstdint>
#include <functional>
#include <thread>
#include <vector>
#include <exception>
namespace yacl {
inline int get_num_threads() { return 4; }
inline void set_num_threads(int) {}
inline int get_thread_num() { return 0; }
inline bool in_parallel_region() { return false; }
template <typename F>
inline void parallel_for(int64_t begin, int64_t end, int64_t grain, const F& f) { (void)grain; if (begin < end) f(begin, end); }
template <typename F>
inline void parallel_for(int64_t begin, int64_t end, const F& f) { if (begin < end) f(begin, end); }
template <typename T, typename F, typename R>
inline T parallel_reduce(int64_t begin, int64_t end, int64_t, const F& f, const R& r) { (void)r; return f(begin, end); }
}  // namespace yacl
