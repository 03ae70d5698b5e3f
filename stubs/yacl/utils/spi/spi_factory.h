#pragma once
#include <string>
#include <utility>
#define DEFINE_ARG(T, N) inline auto N = ::yacl::ArgDef<T>(#N)
#define DEFINE_ARG_bool(N) DEFINE_ARG(bool, N)
namespace yacl {
template <typename T> struct ArgDef { const char* n; constexpr explicit ArgDef(const char* x) : n(x) {} template <typename V> std::pair<std::string, T> operator=(V&& v) const { return {n, static_cast<T>(v)}; } };
struct SpiArg { template <typename T> SpiArg(std::pair<std::string, T>) {} SpiArg() = default; };
inline ArgDef<std::string> ArgLib{"Lib"};
}
