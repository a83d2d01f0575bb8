// Force-included before every translation unit: what the code gets from libc++
// transitively (the project builds with libc++, which is not installed here).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>
using std::nullptr_t;
#include <ostream>
#include <string_view>
// Later versions of protobuf can print messages.
namespace google::protobuf {
class Message;
std::ostream& operator<<(std::ostream& out, Message const& message);
}  // namespace google::protobuf
#if defined(PRINCIPIA_VERIF_MUTEX)
// Perturb the schedule around the operations on these atomics too.
#include <atomic>
#include <condition_variable>
#include <future>
#include <shared_mutex>
#include <stop_token>
namespace absl::shim {
void Perturb();
}  // namespace absl::shim
namespace std {
template<typename T>
class verif_atomic : public atomic<T> {
  using Base = atomic<T>;
 public:
  constexpr verif_atomic() = default;
  constexpr verif_atomic(T const t) : Base(t) {}
  static constexpr bool is_always_lock_free = Base::is_always_lock_free;
  T operator=(T const t) {
    ::absl::shim::Perturb();
    T const r = Base::operator=(t);
    ::absl::shim::Perturb();
    return r;
  }
  operator T() const {
    ::absl::shim::Perturb();
    return Base::load();
  }
  T operator++() {
    T const r = Base::fetch_add(1) + 1;
    ::absl::shim::Perturb();
    return r;
  }
  T operator--() {
    T const r = Base::fetch_sub(1) - 1;
    ::absl::shim::Perturb();
    return r;
  }
  T operator++(int) {
    T const r = Base::fetch_add(1);
    ::absl::shim::Perturb();
    return r;
  }
  T operator--(int) {
    T const r = Base::fetch_sub(1);
    ::absl::shim::Perturb();
    return r;
  }
};
class verif_atomic_bool : public atomic<bool> {
  using Base = atomic<bool>;
 public:
  constexpr verif_atomic_bool() = default;
  constexpr verif_atomic_bool(bool const t) : Base(t) {}
  bool operator=(bool const t) {
    ::absl::shim::Perturb();
    bool const r = Base::operator=(t);
    ::absl::shim::Perturb();
    return r;
  }
  operator bool() const {
    ::absl::shim::Perturb();
    return Base::load();
  }
};
}  // namespace std
#define atomic_bool verif_atomic_bool
#define atomic_int verif_atomic<int>
#endif
