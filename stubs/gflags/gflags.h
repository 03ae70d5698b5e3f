#pragma once
#include <cstdint>
#include <string>
#define DEFINE_string(n, d, t) std::string FLAGS_##n = d
#define DEFINE_bool(n, d, t) bool FLAGS_##n = d
#define DEFINE_int32(n, d, t) int32_t FLAGS_##n = d
#define DEFINE_uint32(n, d, t) uint32_t FLAGS_##n = d
#define DEFINE_int64(n, d, t) int64_t FLAGS_##n = d
#define DEFINE_uint64(n, d, t) uint64_t FLAGS_##n = d
#define DEFINE_double(n, d, t) double FLAGS_##n = d
#define DECLARE_string(n) extern std::string FLAGS_##n
#define DECLARE_bool(n) extern bool FLAGS_##n
namespace gflags { uint32_t ParseCommandLineFlags(int*, char***, bool); void SetVersionString(const std::string&); void SetUsageMessage(const std::string&); bool AllowCommandLineReparsing(); void ShutDownCommandLineFlags(); struct CommandLineFlagInfo { bool is_default; }; CommandLineFlagInfo GetCommandLineFlagInfoOrDie(const char*); }
namespace google { using gflags::ParseCommandLineFlags; }
