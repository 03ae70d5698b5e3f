#pragma once
#include <memory>
#include <string>
#include <vector>
#define PERFETTO_DEFINE_CATEGORIES(...) struct PerfettoCategoriesStub {}
#define PERFETTO_TRACK_EVENT_STATIC_STORAGE() struct PerfettoStorageStub {}
#define TRACE_EVENT(...) ((void)0)
#define TRACE_EVENT_BEGIN(...) ((void)0)
#define TRACE_EVENT_END(...) ((void)0)
#define TRACE_EVENT_INSTANT(...) ((void)0)
namespace perfetto { struct Category { Category(const char*) {} };
struct TracingInitArgs { unsigned backends; }; enum { kInProcessBackend = 1 }; struct TraceConfig { struct B { void set_size_kb(int) {} }; struct C { void set_name(const char*) {} }; struct DS { C c; C* mutable_config() { return &c; } }; B b; DS d; B* add_buffers() { return &b; } DS* add_data_sources() { return &d; } };
class TracingSession { public: void Setup(const TraceConfig&) {} void StartBlocking() {} void StopBlocking() {} std::vector<char> ReadTraceBlocking() { return std::vector<char>(1); } };
namespace protos { namespace gen { struct ProcessDescriptor { void set_process_name(const char*) {} }; struct TrackDescriptor { ProcessDescriptor p; ProcessDescriptor* mutable_process() { return &p; } }; } }
struct Tracing { static void Initialize(const TracingInitArgs&) {} static std::unique_ptr<TracingSession> NewTrace() { return std::make_unique<TracingSession>(); } };
struct ProcessTrack { static ProcessTrack Current() { return {}; } protos::gen::TrackDescriptor Serialize() const { return {}; } }; struct TrackEvent { static void Register() {} static void Flush() {} template <typename T> static void SetTrackDescriptor(const T&, const protos::gen::TrackDescriptor&) {} }; }
