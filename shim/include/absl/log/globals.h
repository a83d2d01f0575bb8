#pragma once
#include "absl/base/log_severity.h"
namespace absl {
LogSeverityAtLeast MinLogLevel();
void SetMinLogLevel(LogSeverityAtLeast);
LogSeverityAtLeast StderrThreshold();
void SetStderrThreshold(LogSeverityAtLeast);
inline void SetStderrThreshold(LogSeverity const s) {
  SetStderrThreshold(static_cast<LogSeverityAtLeast>(s));
}
class ScopedStderrThreshold {
 public:
  explicit ScopedStderrThreshold(LogSeverityAtLeast const s)
      : saved_(StderrThreshold()) { SetStderrThreshold(s); }
  ~ScopedStderrThreshold() { SetStderrThreshold(saved_); }
 private:
  LogSeverityAtLeast const saved_;
};
int SetGlobalVLogLevel(int level);
int GlobalVLogLevel();
}  // namespace absl
