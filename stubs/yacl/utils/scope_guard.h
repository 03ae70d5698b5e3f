#pragma once
#include <utility>
#define ON_SCOPE_EXIT_CAT2(a, b) a##b
#define ON_SCOPE_EXIT_CAT(a, b) ON_SCOPE_EXIT_CAT2(a, b)
namespace yacl {
template <typename F> struct ScopeGuard { F f; explicit ScopeGuard(F g) : f(std::move(g)) {} ~ScopeGuard() { f(); } };
struct ScopeGuardMaker { template <typename F> ScopeGuard<F> operator+(F f) { return ScopeGuard<F>(std::move(f)); } };
}
#define ON_SCOPE_EXIT(...) auto ON_SCOPE_EXIT_CAT(scope_guard_, __LINE__) = ::yacl::ScopeGuardMaker() + __VA_ARGS__
