// Stand-in for a header of Abseil >= 20230125 (absent here).
#pragma once
#include <atomic>
#include "absl/log/globals.h"
#include "absl/log/internal/shim_message.h"
#define ABSL_SHIM_M_INFO                                      \
  ::absl::shim::Message(__FILE__, __LINE__, ::absl::LogSeverity::kInfo)
#define ABSL_SHIM_M_WARNING                                   \
  ::absl::shim::Message(__FILE__, __LINE__, ::absl::LogSeverity::kWarning)
#define ABSL_SHIM_M_ERROR                                     \
  ::absl::shim::Message(__FILE__, __LINE__, ::absl::LogSeverity::kError)
#define ABSL_SHIM_M_FATAL ::absl::shim::FatalMessage(__FILE__, __LINE__)
#define LOG(severity) ABSL_SHIM_M_##severity.stream()
#define LOG_IF(severity, condition) \
  !(condition) ? (void)0 : ::absl::shim::Voidify() && LOG(severity)
#define DLOG(severity) LOG(severity)
#define VLOG_IS_ON(level) (::absl::GlobalVLogLevel() >= (level))
#define VLOG(level)                                                     \
  for (bool absl_shim_on = VLOG_IS_ON(level); absl_shim_on;             \
       absl_shim_on = false)                                            \
  ::absl::shim::Message(__FILE__, __LINE__, ::absl::LogSeverity::kInfo, \
                        (level)).stream()
// A counter per call site.
#define ABSL_SHIM_EVERY(n)                                        \
  [](int const absl_shim_n) {                                     \
    static std::atomic<int> counter = 0;                          \
    return counter.fetch_add(1) % absl_shim_n == 0;               \
  }(n)
#define LOG_EVERY_N(severity, n) LOG_IF(severity, ABSL_SHIM_EVERY(n))
#define LOG_IF_EVERY_N(severity, condition, n) \
  LOG_IF(severity, (condition) && ABSL_SHIM_EVERY(n))
// No clock: the first message, then one in a thousand.
#define LOG_EVERY_N_SEC(severity, n) LOG_IF(severity, ABSL_SHIM_EVERY(1000))
#define LOG_IF_EVERY_N_SEC(severity, condition, n) \
  LOG_IF(severity, (condition) && ABSL_SHIM_EVERY(1000))
