#pragma once
#include <cassert>
#include <algorithm>
#include <array>
#include <cmath>
#include <chrono>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <thread>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include <cstring>
#include <exception>
#include <iostream>
#include <stdexcept>
#include <string>
#include <utility>
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "absl/types/span.h"
#include "absl/strings/str_split.h"
#include "absl/strings/str_join.h"
#include "absl/strings/numbers.h"
#include "fmt/ranges.h"
namespace yacl {
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string m) : msg_(std::move(m)) {}
  explicit Exception(const char* m) : msg_(m) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return msg_; }
 private:
  std::string msg_;
};
class RuntimeError : public Exception { using Exception::Exception; };
class LogicError : public Exception { using Exception::Exception; };
class InvalidFormat : public Exception { using Exception::Exception; };
class ArgumentError : public Exception { using Exception::Exception; };
class IoError : public Exception { using Exception::Exception; };
class LinkError : public Exception { using Exception::Exception; };
class NetworkError : public Exception { using Exception::Exception; };
class NotImplementedError : public Exception { using Exception::Exception; };
class EnforceNotMet : public Exception { public: using Exception::Exception; };
[[noreturn]] inline void ThrowEnforceNotMet() { throw EnforceNotMet("enforce not met"); }
[[noreturn]] inline void ThrowYacl() { throw RuntimeError("yacl throw"); }
template <typename... A> inline void EnforceMsg(A&&...) {}
template <typename T> inline T CheckNotNull(T t) { if (t == nullptr) { ThrowEnforceNotMet(); } return t; }
}  // namespace yacl
#define WEAK_ENFORCE(COND, ...) YACL_ENFORCE(COND, ##__VA_ARGS__)
#define YACL_LIKELY(x) (x)
#define YACL_ENFORCE(COND, ...) do { if (!(COND)) { ::yacl::EnforceMsg(__VA_ARGS__); ::yacl::ThrowEnforceNotMet(); } } while (false)
#define YACL_ENFORCE_OP_(a, op, b, ...) do { if (!((a) op (b))) { ::yacl::EnforceMsg(__VA_ARGS__); ::yacl::ThrowEnforceNotMet(); } } while (false)
#define YACL_ENFORCE_EQ(a, b, ...) YACL_ENFORCE_OP_(a, ==, b, ##__VA_ARGS__)
#define YACL_ENFORCE_NE(a, b, ...) YACL_ENFORCE_OP_(a, !=, b, ##__VA_ARGS__)
#define YACL_ENFORCE_GT(a, b, ...) YACL_ENFORCE_OP_(a, >, b, ##__VA_ARGS__)
#define YACL_ENFORCE_GE(a, b, ...) YACL_ENFORCE_OP_(a, >=, b, ##__VA_ARGS__)
#define YACL_ENFORCE_LT(a, b, ...) YACL_ENFORCE_OP_(a, <, b, ##__VA_ARGS__)
#define YACL_ENFORCE_LE(a, b, ...) YACL_ENFORCE_OP_(a, <=, b, ##__VA_ARGS__)
#define YACL_THROW(...) do { ::yacl::EnforceMsg(__VA_ARGS__); ::yacl::ThrowYacl(); } while (false)
#define YACL_THROW_WITH_STACK(...) YACL_THROW(__VA_ARGS__)
#define YACL_THROW_HELPER(E, ...) do { throw E("yacl throw"); } while (false)
#define YACL_THROW_LOGIC_ERROR(...) YACL_THROW(__VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) YACL_THROW(__VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) YACL_THROW(__VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) YACL_THROW(__VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) YACL_THROW(__VA_ARGS__)
#define YACL_PRETTY_ENFORCE YACL_ENFORCE
#define YACL_DEBUG_ONLY_THROW(...) YACL_THROW(__VA_ARGS__)
