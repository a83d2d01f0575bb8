// Stand-in for a header of Abseil >= 20230125 (absent here).
#pragma once
#include <cstdint>
#include <ostream>
#include <string>
#include <string_view>
#include "absl/base/log_severity.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
namespace absl {
class LogEntry {
 public:
  absl::LogSeverity log_severity() const { return severity_; }
  absl::Time timestamp() const { return timestamp_; }
  std::string_view source_filename() const { return file_; }
  std::string_view source_basename() const {
    auto const p = file_.rfind('/');
    return p == std::string_view::npos ? file_ : file_.substr(p + 1);
  }
  int source_line() const { return line_; }
  int verbosity() const { return verbosity_; }
  std::string_view text_message() const { return message_; }
  std::string_view text_message_with_prefix() const { return full_; }
  std::string_view text_message_with_prefix_and_newline() const {
    return full_newline_;
  }
  std::string_view stacktrace() const { return stacktrace_; }

  absl::LogSeverity severity_ = absl::LogSeverity::kInfo;
  absl::Time timestamp_;
  std::string_view file_;
  int line_ = 0;
  int verbosity_ = -1;
  std::string message_, full_, full_newline_, stacktrace_;
};
inline void PrintTo(LogEntry const& e, std::ostream* os) {
  *os << e.text_message_with_prefix_and_newline();
}
}  // namespace absl
