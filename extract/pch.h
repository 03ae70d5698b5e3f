// Precompiled third-party headers (never repository headers): speeds up extraction only.
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <immintrin.h>
#include "spdlog/spdlog.h"
#include "fmt/format.h"
#include "fmt/ranges.h"
#include "absl/strings/escaping.h"
#include "absl/strings/str_split.h"
#include "absl/strings/str_join.h"
#include "absl/types/span.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/generated_message_reflection.h"
#include "google/protobuf/map_entry.h"
#include "google/protobuf/map.h"
#include "yacl/base/exception.h"
#include "yacl/link/link.h"
#include "yacl/utils/parallel.h"
#include "yacl/utils/serialize.h"
#include "yacl/crypto/hash/hash_utils.h"
