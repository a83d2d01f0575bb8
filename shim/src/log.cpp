// Implementation of the stand-in for absl/log.
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <set>
#include <vector>
#include "absl/log/globals.h"
#include "absl/log/initialize.h"
#include "absl/log/internal/globals.h"
#include "absl/log/internal/shim_message.h"
#include "absl/log/log_sink_registry.h"

namespace absl {
namespace {
std::recursive_mutex& Lock() {
  static auto* const m = new std::recursive_mutex;
  return *m;
}
std::vector<LogSink*>& Sinks() {
  static auto* const s = new std::vector<LogSink*>;
  return *s;
}
std::atomic<int> min_log_level = static_cast<int>(LogSeverityAtLeast::kInfo);
std::atomic<int> stderr_threshold =
    std::getenv("VERIF_LOG") != nullptr
        ? static_cast<int>(LogSeverityAtLeast::kInfo)
        : static_cast<int>(LogSeverityAtLeast::kFatal);
std::atomic<int> vlog_level = 0;
std::atomic<bool> initialized = false;
std::atomic<int> sink_count = 0;
thread_local shim::FatalMode fatal_mode = shim::FatalMode::Abort;
}  // namespace

void AddLogSink(LogSink* sink) {
  std::lock_guard l(Lock());
  Sinks().push_back(sink);
  ++sink_count;
}
void RemoveLogSink(LogSink* sink) {
  std::lock_guard l(Lock());
  --sink_count;
  std::erase(Sinks(), sink);
}
void FlushLogSinks() {
  std::lock_guard l(Lock());
  for (auto* s : Sinks()) s->Flush();
}
LogSeverityAtLeast MinLogLevel() {
  return static_cast<LogSeverityAtLeast>(min_log_level.load());
}
void SetMinLogLevel(LogSeverityAtLeast s) {
  min_log_level = static_cast<int>(s);
}
LogSeverityAtLeast StderrThreshold() {
  return static_cast<LogSeverityAtLeast>(stderr_threshold.load());
}
void SetStderrThreshold(LogSeverityAtLeast s) {
  stderr_threshold = static_cast<int>(s);
}
int SetGlobalVLogLevel(int level) { return vlog_level.exchange(level); }
int GlobalVLogLevel() { return vlog_level; }
void InitializeLog() { initialized = true; }
namespace log_internal {
bool IsInitialized() { return initialized; }
}  // namespace log_internal

namespace shim {

FatalMode SetThreadFatalMode(FatalMode const mode) {
  return std::exchange(fatal_mode, mode);
}

Message::Message(char const* file, int line, absl::LogSeverity severity,
                 int verbosity)
    : file_(file), line_(line), severity_(severity), verbosity_(verbosity) {}

Message::~Message() {
  if (!emitted_) Emit();
}

void Message::Emit() {
  emitted_ = true;
  bool const to_stderr =
      static_cast<int>(severity_) >= stderr_threshold.load();
  if (!to_stderr && sink_count.load() == 0) return;
  if (static_cast<int>(severity_) < min_log_level.load()) return;
  LogEntry e;
  e.severity_ = severity_;
  e.timestamp_ = absl::Now();
  e.file_ = file_;
  e.line_ = line_;
  e.verbosity_ = verbosity_;
  e.message_ = stream_.str();
  e.full_ = std::string(1, LogSeverityName(severity_)[0]) +
            absl::FormatTime("%m%d %H:%M:%E6S", e.timestamp_,
                             absl::LocalTimeZone()) +
            " " + std::to_string(getpid()) + " " +
            std::string(e.source_basename()) + ":" + std::to_string(line_) +
            "] " + e.message_;
  e.full_newline_ = e.full_ + "\n";
  std::lock_guard l(Lock());
  if (to_stderr) std::fputs(e.full_newline_.c_str(), stderr);
  auto const sinks = Sinks();
  for (auto* s : sinks) s->Send(e);
  if (severity_ == LogSeverity::kFatal) {
    e.stacktrace_ = "*** stack trace unavailable ***\n";
    for (auto* s : sinks) { s->Send(e); s->Flush(); }
  }
}

FatalMessage::FatalMessage(char const* file, int line)
    : Message(file, line, absl::LogSeverity::kFatal) {}
FatalMessage::FatalMessage(char const* file, int line, char const* condition)
    : Message(file, line, absl::LogSeverity::kFatal) {
  stream_ << "Check failed: " << condition << " ";
}
FatalMessage::FatalMessage(char const* file, int line,
                           std::unique_ptr<std::string> s)
    : Message(file, line, absl::LogSeverity::kFatal) {
  stream_ << "Check failed: " << *s << " ";
}
FatalMessage::~FatalMessage() noexcept(false) {
  if (fatal_mode == FatalMode::Throw) {
    emitted_ = true;
    throw FatalError{std::string(file_) + ":" + std::to_string(line_) + "] " +
                     stream_.str()};
  }
  Emit();
  std::fflush(nullptr);
  std::abort();
}

}  // namespace shim
}  // namespace absl
