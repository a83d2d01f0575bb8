#pragma once
#include <ostream>
namespace absl::log_internal {
template<typename It>
void LogRangeToStream(std::ostream& out, It b, It e) {
  out << '[';
  for (bool first = true; b != e; ++b, first = false) {
    if (!first) out << ", ";
    out << *b;
  }
  out << ']';
}
template<typename It>
class RangeLogger {
 public:
  RangeLogger(It b, It e) : b_(b), e_(e) {}
  friend std::ostream& operator<<(std::ostream& o, RangeLogger const& r) {
    LogRangeToStream(o, r.b_, r.e_);
    return o;
  }
 private:
  It b_, e_;
};
template<typename C>
auto LogContainer(C const& c) {
  return RangeLogger<decltype(c.begin())>(c.begin(), c.end());
}
}  // namespace absl::log_internal
