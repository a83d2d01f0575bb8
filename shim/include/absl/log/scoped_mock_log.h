#pragma once
#include <string>
#include "absl/log/log_sink.h"
#include "absl/log/log_sink_registry.h"
#include "gmock/gmock.h"
namespace absl {
enum class MockLogDefault { kDisallowUnexpected, kIgnoreUnexpected };
class ScopedMockLog final {
 public:
  explicit ScopedMockLog(
      MockLogDefault d = MockLogDefault::kIgnoreUnexpected) : sink_(this) {
    EXPECT_CALL(*this, Log(::testing::_, ::testing::_, ::testing::_))
        .Times(::testing::AnyNumber());
  }
  ~ScopedMockLog() { if (on_) StopCapturingLogs(); }
  void StartCapturingLogs() { on_ = true; AddLogSink(&sink_); }
  void StopCapturingLogs() { on_ = false; RemoveLogSink(&sink_); }
  MOCK_METHOD(void, Log, (absl::LogSeverity, std::string const&,
                          std::string const&));
 private:
  struct Sink : LogSink {
    explicit Sink(ScopedMockLog* l) : l(l) {}
    void Send(absl::LogEntry const& e) override {
      if (e.stacktrace().empty()) {
        l->Log(e.log_severity(), std::string(e.source_filename()),
               std::string(e.text_message()));
      }
    }
    ScopedMockLog* l;
  };
  Sink sink_;
  bool on_ = false;
};
}  // namespace absl
