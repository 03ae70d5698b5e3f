#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include "yacl/base/int128.h"
namespace yacl {
template <typename B = uint128_t> class dynamic_bitset : public std::vector<bool> { public: using std::vector<bool>::vector; dynamic_bitset& append(const dynamic_bitset& o) { insert(end(), o.begin(), o.end()); return *this; } size_t count() const { size_t c = 0; for (bool b : *this) c += b; return c; } size_t num_blocks() const { return (size() + 127) / 128; } void reset() {} std::string to_string() const { return ""; } B* data() { return nullptr; } };
}
