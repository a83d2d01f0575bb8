#pragma once
#include "absl/log/log_sink.h"
namespace absl {
void AddLogSink(LogSink* sink);
void RemoveLogSink(LogSink* sink);
void FlushLogSinks();
}  // namespace absl
