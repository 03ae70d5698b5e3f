PG = "psi/utils/progress.cc"
PDEMO = r'''d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g %s -I. "$d/demo.cc" psi/utils/progress.cc -o "$t/demo" -lfmt -lpthread || exit 3
timeout 120 "$t/demo"
'''
CC = '''#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
#include <chrono>
#include "psi/utils/progress.h"
using psi::Progress;
#define REQ(c) do { if (!(c)) { std::printf("failed: %%s\\n", #c); return 1; } } while (0)
int main() {
%s
  return 0;
}
'''
seed("progress-parallel-done", "C22", [(PG, "  if (mode_.load() != Mode::kSingle) {\n    std::unique_lock", "  if (mode_.load() == Mode::kSerial) {\n    std::unique_lock")],
     "a parallel composite (SetSubJobCount) that is marked done while a part is unfinished", "finishing a parallel job leaves its parts unfinished, so it never reports 100%",
     PDEMO % "", {"demo.cc": CC % '''  Progress p; p.SetSubJobCount(2);
  auto a = p.AddSubProgress("a"); auto b = p.AddSubProgress("b");
  a->Update(30); p.Done();
  REQ(a->IsDone()); REQ(b->IsDone()); REQ(p.Get().percentage == 100);'''})
seed("progress-next-single", "C22", [(PG, "  if (!sub_progresses_.empty()) {\n    auto current", "  if (!sub_progresses_.empty() &&\n      sub_progresses_.size() < weights_.size()) {\n    auto current")],
     "more phases started than weights configured", "starting a phase beyond the configured ones no longer finishes the current phase",
     PDEMO % "", {"demo.cc": CC % '''  Progress p; p.SetWeights({1, 1});
  auto a = p.NextSubProgress("a"); auto b = p.NextSubProgress("b"); b->Update(10);
  auto c = p.NextSubProgress("c");
  REQ(a->IsDone()); REQ(b->IsDone()); c->Done(); REQ(p.Get().percentage == 100);'''})
seed("progress-update-monotone", "C22", [(PG, "percentage_.store(std::min<size_t>(percentage, 100));", "if (percentage > percentage_.load()) {\n    percentage_.store(percentage);\n  }")],
     "an update with a figure above 100", "a percentage above 100 is stored and reported",
     PDEMO % "", {"demo.cc": CC % '''  Progress p; p.Update(250); REQ(p.Get().percentage <= 100);
  Progress q; q.SetWeights({1}); q.NextSubProgress("x")->Update(1000); REQ(q.Get().percentage <= 100);'''})
seed("progress-add-unlocked", "C13", [(PG, "    const std::string& description) {\n  std::unique_lock lock(rw_mutex_);\n\n  auto p = std::make_shared<Progress>(description);\n  sub_progresses_.push_back(p);\n  return p;\n}\n\nstd::shared_ptr<Progress> Progress::NextSubProgress(",
                                          "    const std::string& description) {\n  auto p = std::make_shared<Progress>(description);\n  sub_progresses_.push_back(p);\n  return p;\n}\n\nstd::shared_ptr<Progress> Progress::NextSubProgress(")],
     "a part added while another thread reads the progress", "the list of parts is extended without the lock readers hold; a concurrent reader uses freed memory",
     PDEMO % "-fsanitize=address", {"demo.cc": CC % '''  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
  while (std::chrono::steady_clock::now() < end) {
    Progress p; p.SetSubJobCount(1);
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; k++) ts.emplace_back([&] { for (int i = 0; i < 300; i++) p.AddSubProgress("x"); });
    for (int k = 0; k < 3; k++) ts.emplace_back([&] { for (int i = 0; i < 60; i++) p.Get(); });
    for (auto& t : ts) t.join();
    p.Done(); REQ(p.Get().total == 1200);
  }'''})
seed("progress-done-shared-lock", "C13", [(PG, "  std::unique_lock lock(rw_mutex_);\n\n  if (!sub_progresses_.empty()) {", "  std::shared_lock lock(rw_mutex_);\n\n  if (!sub_progresses_.empty()) {"), (PG, "#include <numeric>\n", "#include <numeric>\n#include <shared_mutex>\n")],
     "two phases started by different threads at the same time, or a reader during a phase change", "the list of parts is changed under a shared lock only",
     PDEMO % "-fsanitize=address", {"demo.cc": CC % '''  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
  while (std::chrono::steady_clock::now() < end) {
    Progress p; p.SetSubJobCount(1);
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; k++) ts.emplace_back([&] { for (int i = 0; i < 300; i++) p.NextSubProgress("x"); });
    for (int k = 0; k < 3; k++) ts.emplace_back([&] { for (int i = 0; i < 60; i++) p.Get(); });
    for (auto& t : ts) t.join();
    p.Done(); REQ(p.Get().total == 1200);
  }'''})
DEC = r'''set -e; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
got=$(printf '%s' | protoc -I. --decode=%s %s)
want='%s'
[ "$got" = "$want" ] || { echo "decoded: $got"; exit 1; }
'''
seed("proto-swap-recovery-counts", "C11", [("psi/checkpoint/checkpoint.proto", "  uint64 ecdh_dual_masked_item_self_count = 4;", "  uint64 ecdh_dual_masked_item_self_count = 5;"), ("psi/checkpoint/checkpoint.proto", "  uint64 ecdh_dual_masked_item_peer_count = 5;", "  uint64 ecdh_dual_masked_item_peer_count = 4;")],
     "a checkpoint written by an earlier build", "the two progress counters of an existing recovery checkpoint are read swapped",
     DEC % (r"\x20\x07\x28\x09", "psi.v2.RecoveryCheckpoint", "psi/checkpoint/checkpoint.proto", "ecdh_dual_masked_item_self_count: 7\necdh_dual_masked_item_peer_count: 9"))
seed("proto-zigzag-count", "C11", [("psi/proto/psi.proto", "  int64 intersection_count = 2;", "  sint64 intersection_count = 2;")],
     "a report exchanged between builds", "the intersection count changes its wire encoding, so counts are misread",
     DEC % (r"\x10\x06", "psi.PsiResultReport", "psi/proto/psi.proto", "intersection_count: 6"))
W = "psi/wrapper/apsi/api/"
WDEMO = r'''d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -g -fsanitize=address -I. -I"$d/inc" "$d/demo.cc" psi/wrapper/apsi/api/wrapper_util.cc -o "$t/demo" || exit 3
ASAN_OPTIONS=detect_leaks=%d timeout 120 "$t/demo"
'''
EXC = '#pragma once\n#include <stdexcept>\n#define YACL_ENFORCE(c, ...) do { if (!(c)) throw std::runtime_error("enforce"); } while (0)\n'
WCC = '''#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "psi/wrapper/apsi/api/wrapper_util.h"
#include "psi/wrapper/apsi/api/wrapper_common.h"
using namespace psi::apsi_wrapper::api;
#define REQ(c) do { if (!(c)) { std::printf("failed: %%s\\n", #c); return 1; } } while (0)
int main() {
  std::string bin("a\\0b\\0", 4);
%s
  return 0;
}
'''
WF = lambda body: {"demo.cc": WCC % body, "inc/yacl/base/exception.h": EXC}
seed("capi-string-until-zero", "C24", [(W + "wrapper_util.cc", "return std::string(str.data, str.size);", "return str.size == 0 ? std::string() : std::string(str.data);")],
     "a request or response containing a zero byte", "binary data handed across the C interface is cut at its first zero byte",
     WDEMO % 0, WF('''  CString c = MakeCString(bin); REQ(c.size == 4); REQ(MakeString(c) == bin); FreeCString(&c);'''))
seed("capi-array-pointer-size", "C24", [(W + "wrapper_util.cc", "malloc(sizeof(CString) * strs.size())", "malloc(sizeof(CString *) * strs.size() + sizeof(CString))")],
     "an array of three or more elements", "the element array is too small for its elements",
     WDEMO % 0, WF('''  std::vector<std::string> v(40, bin); CStringArray a = MakeCStringArray(v); REQ(a.size == 40); REQ(MakeStringArray(a) == v); FreeCStringArray(&a);'''))
seed("capi-free-nonempty-only", "C24", [(W + "wrapper_common.h", "    free(array->data[i].data);", "    if (array->data[i].size != 0) {\n      free(array->data[i].data);\n    }")],
     "releasing an array that holds an empty string", "the terminator-only buffer of an empty element is never released",
     WDEMO % 1, WF('''  for (int i = 0; i < 3; i++) { std::vector<std::string> v{"x", "", bin}; CStringArray a = MakeCStringArray(v); FreeCStringArray(&a); }'''))
