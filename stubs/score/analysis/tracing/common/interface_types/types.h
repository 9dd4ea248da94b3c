// Stand-in: types of the trace daemon API.
#pragma once
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#include "score/optional.hpp"
#include "score/result/result.h"
#include <cstdint>
#include <string>
#include <utility>
#include <variant>
#include <vector>
namespace score { namespace analysis { namespace tracing {
using TraceClientId = std::uint8_t; using TraceContextId = std::uint64_t; using ShmObjectHandle = std::int32_t;
enum class BindingType : std::uint8_t { kUndefined = 0, kLoLa = 1, kVector = 2 };
enum class TracePointType : std::uint8_t { kInvalid = 0, kSkelEventSnd, kSkelEventSndA, kSkelFieldUpd, kSkelFieldUpdA, kSkelFieldGetCall, kSkelFieldGetCallResult, kSkelFieldSetCall, kSkelFieldSetCallResult,
  kProxyEventSub, kProxyEventUnsub, kProxyEventSubstateChange, kProxyEventSetChghdl, kProxyEventUnsetChghdl, kProxyEventChghdl, kProxyEventSetRechdl, kProxyEventUnsetRechdl, kProxyEventRechdl, kProxyEventGetSamples, kProxyEventSampleCb,
  kProxyFieldSub, kProxyFieldUnsub, kProxyFieldSubstateChange, kProxyFieldSetChghdl, kProxyFieldUnsetChghdl, kProxyFieldChghdl, kProxyFieldSetRechdl, kProxyFieldUnsetRechdl, kProxyFieldRechdl, kProxyFieldGetSamples, kProxyFieldSampleCb,
  kProxyFieldGet, kProxyFieldGetResult, kProxyFieldSet, kProxyFieldSetResult };
using TraceDoneCallBackType = safecpp::MoveOnlyScopedFunction<void(TraceContextId)>;
class SharedMemoryLocation { public: SharedMemoryLocation() = default; SharedMemoryLocation(ShmObjectHandle h, std::size_t o) : shm_object_handle{h}, offset{o} {} ShmObjectHandle shm_object_handle{}; std::size_t offset{}; };
class SharedMemoryChunk { public: SharedMemoryChunk() = default; SharedMemoryChunk(SharedMemoryLocation s, std::size_t n) : start{s}, size{n} {} SharedMemoryLocation start{}; std::size_t size{}; };
class LocalDataChunk { public: LocalDataChunk() = default; LocalDataChunk(const void* p, std::size_t n) : start{p}, size{n} {} const void* start{}; std::size_t size{}; };
class ShmDataChunkList { public: explicit ShmDataChunkList(SharedMemoryChunk c) : root{c} {} SharedMemoryChunk root; };
class LocalDataChunkList { public: explicit LocalDataChunkList(LocalDataChunk c) : root{c} {} LocalDataChunk root; };
class ServiceInstanceElement {
 public:
  using ServiceIdType = std::uint32_t; using InstanceIdType = std::uint32_t; using VersionType = std::uint32_t;
  struct EventId { std::uint32_t v; explicit EventId(std::uint32_t x) : v{x} {} friend bool operator==(EventId a, EventId b) { return a.v == b.v; } };
  struct FieldId { std::uint32_t v; explicit FieldId(std::uint32_t x) : v{x} {} friend bool operator==(FieldId a, FieldId b) { return a.v == b.v; } };
  struct MethodId { std::uint32_t v; explicit MethodId(std::uint32_t x) : v{x} {} friend bool operator==(MethodId a, MethodId b) { return a.v == b.v; } };
  using StdVariantType = std::variant<std::monostate, EventId, FieldId, MethodId>; using VariantType = StdVariantType;
  ServiceInstanceElement() = default;
  ServiceInstanceElement(ServiceIdType s, VersionType ma, VersionType mi, InstanceIdType i, StdVariantType e) : service_id_{s}, major_version_{ma}, minor_version_{mi}, instance_id_{i}, element_id_{e} {}
  ServiceIdType service_id_{}; VersionType major_version_{}; VersionType minor_version_{}; InstanceIdType instance_id_{}; StdVariantType element_id_{};
};
class AraComProperties {
 public:
  using TracePointDataId = std::uint32_t;
  AraComProperties(TracePointType t, ServiceInstanceElement s, score::cpp::optional<TracePointDataId> d) : trace_point_type{t}, service_instance_element{s}, trace_point_data_id{d} {}
  TracePointType trace_point_type; ServiceInstanceElement service_instance_element; score::cpp::optional<TracePointDataId> trace_point_data_id;
};
class AraComMetaInfo { public: explicit AraComMetaInfo(AraComProperties p) : properties{p} {} void SetDataLossBit() { data_loss = true; } AraComProperties properties; bool data_loss{false}; };
using MetaInfoVariants = std::variant<AraComMetaInfo>;
enum class ErrorCode : score::result::ErrorCode { kNoErrorRecoverable = 0, kNotEnoughMemoryRecoverable, kModuleNotInitializedRecoverable, kModuleInitializedRecoverable, kRingBufferFullRecoverable, kMessageSendFailedRecoverable,
  kLastRecoverable = 100, kInvalidArgumentFatal, kDaemonNotConnectedFatal, kDaemonConnectionFailedFatal, kTerminalFatal };
namespace stub { class Dom final : public result::ErrorDomain { public: std::string_view MessageFor(const result::ErrorCode&) const noexcept override { return "trace"; } }; inline const Dom& dom() { static Dom d; return d; } }
inline result::Error MakeError(const ErrorCode c, const std::string_view m = "") noexcept { return result::Error{static_cast<result::ErrorCode>(c), stub::dom(), m}; }
inline bool IsErrorRecoverable(const ErrorCode c) noexcept { return static_cast<std::int64_t>(c) < static_cast<std::int64_t>(ErrorCode::kLastRecoverable); }
using RegisterClientResult = score::Result<TraceClientId>; using RegisterSharedMemoryObjectResult = score::Result<ShmObjectHandle>; using UnregisterSharedMemoryObjectResult = score::Result<void>; using RegisterTraceDoneCallBackResult = score::Result<void>; using TraceResult = score::Result<void>;
// the harness installs one of these
class StubTraceLibrary {
 public:
  virtual ~StubTraceLibrary() = default;
  virtual RegisterClientResult RegisterClient(BindingType, const std::string&) = 0;
  virtual RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId, int) = 0;
  virtual UnregisterSharedMemoryObjectResult UnregisterShmObject(TraceClientId, ShmObjectHandle) = 0;
  virtual RegisterTraceDoneCallBackResult RegisterTraceDoneCB(TraceClientId, TraceDoneCallBackType) = 0;
  virtual TraceResult Trace(TraceClientId, const MetaInfoVariants&, const ShmDataChunkList&, TraceContextId) = 0;
  virtual TraceResult Trace(TraceClientId, const MetaInfoVariants&, const LocalDataChunkList&) = 0;
  static StubTraceLibrary*& get() { static StubTraceLibrary* p = nullptr; return p; }
};
class GenericTraceAPI {
 public:
  static RegisterClientResult RegisterClient(BindingType b, const std::string& s) { return StubTraceLibrary::get()->RegisterClient(b, s); }
  static RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId c, int fd) { return StubTraceLibrary::get()->RegisterShmObject(c, fd); }
  static RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId c, const std::string&) { return StubTraceLibrary::get()->RegisterShmObject(c, -1); }
  static UnregisterSharedMemoryObjectResult UnregisterShmObject(TraceClientId c, ShmObjectHandle h) { return StubTraceLibrary::get()->UnregisterShmObject(c, h); }
  static RegisterTraceDoneCallBackResult RegisterTraceDoneCB(TraceClientId c, TraceDoneCallBackType f) { return StubTraceLibrary::get()->RegisterTraceDoneCB(c, std::move(f)); }
  static TraceResult Trace(TraceClientId c, const MetaInfoVariants& m, const ShmDataChunkList& l, TraceContextId i) { return StubTraceLibrary::get()->Trace(c, m, l, i); }
  static TraceResult Trace(TraceClientId c, const MetaInfoVariants& m, const LocalDataChunkList& l) { return StubTraceLibrary::get()->Trace(c, m, l); }
};
} } }
