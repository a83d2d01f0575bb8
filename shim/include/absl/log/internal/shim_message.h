// The stand-in's message class; see shim/src/log.cpp.
#pragma once
#include <concepts>
#include <cstdint>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include "absl/base/log_severity.h"
#include "absl/base/optimization.h"

namespace absl::shim {

// What a fatal message does: abort the process (the default, as the real
// library), or throw, for those workloads that drive the code to its own
// CHECKs on purpose.  The latter is per-thread.
struct FatalError {
  std::string message;
};
enum class FatalMode { Abort, Throw };
FatalMode SetThreadFatalMode(FatalMode mode);

class LogStream : public std::ostringstream {
 public:
  LogStream& AtLocation(std::string_view const file, int const line) {
    location_ = std::string(file) + ":" + std::to_string(line);
    return *this;
  }
  std::string const& location() const { return location_; }

 private:
  std::string location_;
};

class Message {
 public:
  Message(char const* file, int line, absl::LogSeverity severity,
          int verbosity = -1);
  Message(Message const&) = delete;
  ~Message();
  LogStream& stream() { return stream_; }
 protected:
  void Emit();
  LogStream stream_;
  char const* file_;
  int line_;
  absl::LogSeverity severity_;
  int verbosity_;
  bool emitted_ = false;
};

class FatalMessage : public Message {
 public:
  FatalMessage(char const* file, int line);
  FatalMessage(char const* file, int line, char const* condition);
  FatalMessage(char const* file, int line, std::unique_ptr<std::string> s);
  [[noreturn]] ~FatalMessage() noexcept(false);
};

struct Voidify {
  void operator&&(std::ostream const&) const&& {}
};

struct NullStream {
  template<typename T> NullStream& operator<<(T const&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};

template<typename T>
concept streamable = requires(std::ostream& os, T const& t) { os << t; };

template<typename T>
void Print(std::ostream& os, T const& t) {
  if constexpr (std::same_as<std::remove_cv_t<T>, std::nullptr_t>) {
    os << "nullptr";
  } else if constexpr (std::is_enum_v<T> && !streamable<T>) {
    os << static_cast<std::int64_t>(t);
  } else if constexpr (streamable<T>) {
    os << t;
  } else {
    os << "(unprintable)";
  }
}

template<typename T1, typename T2>
[[gnu::cold, gnu::noinline]] std::unique_ptr<std::string> MakeString(
    T1 const& v1, T2 const& v2, char const* text) {
  std::ostringstream ss;
  ss << text << " (";
  Print(ss, v1);
  ss << " vs. ";
  Print(ss, v2);
  ss << ")";
  return std::make_unique<std::string>(ss.str());
}

#define ABSL_SHIM_DEFINE_OP(name, op)                                       \
  template<typename T1, typename T2>                                        \
  constexpr std::unique_ptr<std::string> Check##name(                       \
      T1 const& v1, T2 const& v2, char const* const text) {                 \
    if (ABSL_PREDICT_TRUE(v1 op v2)) return nullptr;                        \
    return MakeString(v1, v2, text);                                        \
  }
ABSL_SHIM_DEFINE_OP(EQ, ==)
ABSL_SHIM_DEFINE_OP(NE, !=)
ABSL_SHIM_DEFINE_OP(LE, <=)
ABSL_SHIM_DEFINE_OP(LT, <)
ABSL_SHIM_DEFINE_OP(GE, >=)
ABSL_SHIM_DEFINE_OP(GT, >)
#undef ABSL_SHIM_DEFINE_OP

template<typename S>
std::unique_ptr<std::string> CheckOk(S const& s, char const* const text) {
  if (ABSL_PREDICT_TRUE(s.ok())) return nullptr;
  if constexpr (requires { s.status().ToString(); }) {
    return std::make_unique<std::string>(std::string(text) + " is OK (" +
                                         s.status().ToString() + ")");
  } else {
    return std::make_unique<std::string>(std::string(text) + " is OK (" +
                                         s.ToString() + ")");
  }
}

template<typename T>
T DieIfNull(char const* const file, int const line, char const* const text,
            T&& t) {
  if (ABSL_PREDICT_FALSE(t == nullptr)) {
    FatalMessage(file, line, text).stream() << " Check failed: non-null";
  }
  return std::forward<T>(t);
}

inline constexpr int VLogLevelOff = -1;

}  // namespace absl::shim
