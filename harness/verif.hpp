// What all the harnesses share: the source of randomness, the record of what
// was observed, and the reporting of violations.
#pragma once

#include <chrono>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <unistd.h>

#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "absl/log/log.h"

extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(
    void (*callback)(void));

namespace verif {

inline std::uint64_t Mix(std::uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

inline std::uint64_t Hash(std::string const& s) {
  std::uint64_t h = 0xCBF29CE484222325ull;
  for (unsigned char const c : s) {
    h = (h ^ c) * 0x100000001B3ull;
  }
  return Mix(h);
}

struct Violation {
  std::string key;
  std::string detail;
};

struct State {
  std::mutex lock;
  std::uint64_t seed = 1;
  int shard = 0;
  int shards = 1;
  bool thorough = false;
  double scale = 1;
  std::string mode;
  std::string salt;
  std::string out;
  std::string only;
  std::uint64_t evaluations = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, std::uint64_t> counts;
  std::map<std::string, double> maxima;
  std::map<std::string, std::string> maxima_at;
  std::vector<Violation> violations;
  std::map<std::string, int> violations_per_key;
};

inline State& S() {
  static State* const s = new State;
  return *s;
}

// A plain buffer, readable from a signal handler.
inline char current_case[4096] = "(none)";
inline std::mutex current_case_lock;

inline void SetCase(std::string const& description) {
  std::lock_guard<std::mutex> l(current_case_lock);
  std::strncpy(current_case, description.c_str(), sizeof(current_case) - 1);
}

inline void PrintCase() {
  char const prefix[] = "\nVERIF-CASE: ";
  (void)!::write(2, prefix, sizeof(prefix) - 1);
  (void)!::write(2, current_case, strnlen(current_case, sizeof(current_case)));
  (void)!::write(2, "\n", 1);
}

inline void OnSignal(int const sig) {
  PrintCase();
  std::signal(sig, SIG_DFL);
  std::raise(sig);
}

inline std::string Escape(std::string const& s) {
  std::string r;
  for (unsigned char const c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 || c >= 0x7F) {
      char b[8];
      std::snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}

inline std::mt19937_64 MakeRng(std::string const& purpose) {
  return std::mt19937_64(
      Mix(S().seed * 1000003 + S().shard) ^ Hash(purpose + S().salt));
}

// Counts a case; `identity` is what makes it distinct.
inline void Case(std::string const& identity, bool const nontrivial = true) {
  State& s = S();
  std::lock_guard<std::mutex> l(s.lock);
  ++s.evaluations;
  if (nontrivial && s.distinct.size() < 2'000'000) {
    s.distinct.insert(Hash(identity));
  }
  if (nontrivial && s.samples.size() < 3) {
    s.samples.push_back(identity.substr(0, 400));
  }
}

// The same, for cases that are cheap and many.
inline void CaseHash(std::uint64_t const identity) {
  State& s = S();
  std::lock_guard<std::mutex> l(s.lock);
  ++s.evaluations;
  if (s.distinct.size() < 2'000'000) {
    s.distinct.insert(Mix(identity));
  }
}

inline void Sample(std::string const& text) {
  State& s = S();
  std::lock_guard<std::mutex> l(s.lock);
  if (s.samples.size() < 6) {
    s.samples.push_back(text.substr(0, 400));
  }
}

inline void Count(std::string const& name, std::uint64_t const n = 1) {
  State& s = S();
  std::lock_guard<std::mutex> l(s.lock);
  s.counts[name] += n;
}

inline void Max(std::string const& name, double const x) {
  State& s = S();
  std::lock_guard<std::mutex> l(s.lock);
  auto const [it, inserted] = s.maxima.emplace(name, x);
  if (inserted || x > it->second || std::isnan(x)) {
    it->second = x;
    s.maxima_at[name] = current_case;
  }
}

inline void Fail(std::string const& key, std::string const& detail) {
  State& s = S();
  std::string where;
  {
    std::lock_guard<std::mutex> l(current_case_lock);
    where = current_case;
  }
  std::lock_guard<std::mutex> l(s.lock);
  if (++s.violations_per_key[key] <= 3) {
    s.violations.push_back({key, detail + " [case: " + where + "]"});
    std::cerr << "VERIF-FAIL " << key << ": " << detail << " [case: " << where
              << "]\n";
  }
}

#define VERIF(condition, key, ...)                       \
  do {                                                   \
    if (!(condition)) {                                  \
      std::ostringstream verif_ss;                       \
      verif_ss << std::setprecision(17) << __VA_ARGS__;  \
      ::verif::Fail((key), verif_ss.str());              \
    }                                                    \
  } while (false)

// While one of these is alive, a failure to destroy it within the given time,
// which must be many times the usual one, is a violation.
class Watchdog {
 public:
  Watchdog(std::string key, int seconds)
      : thread_([this, key = std::move(key), seconds] {
          std::unique_lock<std::mutex> l(lock_);
          if (!done_.wait_for(l, std::chrono::seconds(seconds),
                              [this] { return is_done_; })) {
            Fail(key, "no progress after " + std::to_string(seconds) + " s");
            std::cerr.flush();
            std::_Exit(1);
          }
        }) {}
  ~Watchdog() {
    {
      std::lock_guard<std::mutex> l(lock_);
      is_done_ = true;
    }
    done_.notify_all();
    thread_.join();
  }

 private:
  std::mutex lock_;
  std::condition_variable done_;
  bool is_done_ = false;
  std::thread thread_;
};

// A defect of the harness, not of the code under test.
#define HARNESS_CHECK(condition)                                          \
  do {                                                                    \
    if (!(condition)) {                                                   \
      std::cerr << "HARNESS-ERROR " << __FILE__ << ":" << __LINE__ << " " \
                << #condition << std::endl;                               \
      std::_Exit(3);                                                      \
    }                                                                     \
  } while (false)

template<typename... Args>
std::string Str(Args const&... args) {
  std::ostringstream ss;
  ss << std::setprecision(17);
  ((ss << args), ...);
  return ss.str();
}

inline void WriteReport() {
  State& s = S();
  std::lock_guard<std::mutex> l(s.lock);
  std::ofstream f(s.out);
  f << std::setprecision(17);
  f << "{\"evaluations\":" << s.evaluations
    << ",\"distinct\":" << s.distinct.size() << ",\"samples\":[";
  bool first = true;
  for (auto const& x : s.samples) {
    f << (first ? "" : ",") << '"' << Escape(x) << '"';
    first = false;
  }
  f << "],\"counts\":{";
  first = true;
  for (auto const& [k, v] : s.counts) {
    f << (first ? "" : ",") << '"' << Escape(k) << "\":" << v;
    first = false;
  }
  f << "},\"maxima\":{";
  first = true;
  for (auto const& [k, v] : s.maxima) {
    f << (first ? "" : ",") << '"' << Escape(k) << "\":";
    if (std::isfinite(v)) {
      f << v;
    } else {
      f << "\"" << v << "\"";
    }
    first = false;
  }
  f << "},\"violations\":[";
  first = true;
  for (auto const& v : s.violations) {
    f << (first ? "" : ",") << "{\"key\":\"" << Escape(v.key)
      << "\",\"detail\":\"" << Escape(v.detail.substr(0, 3000)) << "\"}";
    first = false;
  }
  f << "],\"complete\":true}\n";
  f.close();
  std::ofstream h(s.out + ".hashes", std::ios::binary);
  for (std::uint64_t const x : s.distinct) {
    h.write(reinterpret_cast<char const*>(&x), sizeof(x));
  }
}

inline void Init(int const argc, char** const argv) {
  State& s = S();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string const a = argv[i];
    std::string const v = argv[i + 1];
    if (a == "--seed") s.seed = std::stoull(v);
    if (a == "--shard") s.shard = std::stoi(v);
    if (a == "--shards") s.shards = std::stoi(v);
    if (a == "--tier") s.thorough = v == "thorough";
    if (a == "--scale") s.scale = std::stod(v);
    if (a == "--mode") s.mode = v;
    if (a == "--salt") s.salt = v;
    if (a == "--out") s.out = v;
    if (a == "--only") s.only = v;
  }
  if (&__sanitizer_set_death_callback != nullptr) {
    __sanitizer_set_death_callback(&PrintCase);
  }
  std::signal(SIGABRT, &OnSignal);
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
  for (int const sig : {SIGSEGV, SIGFPE, SIGILL, SIGBUS}) {
    std::signal(sig, &OnSignal);
  }
#endif
}

// The number of iterations of a loop that does `n` in a quick run.
inline std::int64_t N(std::int64_t const n) {
  double const x = static_cast<double>(n) * S().scale;
  return x < 1 ? 1 : static_cast<std::int64_t>(x);
}

inline bool Selected(std::string const& name) {
  return S().mode.empty() || S().mode == name;
}

// Random helpers.
using Rng = std::mt19937_64;
inline double Uniform(Rng& r, double const a, double const b) {
  return a + (b - a) * ((r() >> 11) * 0x1p-53);
}
inline std::int64_t Int(Rng& r, std::int64_t const a, std::int64_t const b) {
  return a + static_cast<std::int64_t>(
                 r() % static_cast<std::uint64_t>(b - a + 1));
}
inline bool Chance(Rng& r, double const p) { return Uniform(r, 0, 1) < p; }
inline double Bits(std::uint64_t const b) {
  double d;
  std::memcpy(&d, &b, sizeof(d));
  return d;
}
inline std::uint64_t Bits(double const d) {
  std::uint64_t b;
  std::memcpy(&b, &d, sizeof(b));
  return b;
}
// A double with a uniformly-distributed exponent.
inline double LogUniform(Rng& r, int const e_min, int const e_max) {
  double const m = 1 + (r() >> 12) * 0x1p-52;
  return std::ldexp(Chance(r, 0.5) ? m : -m,
                    static_cast<int>(Int(r, e_min, e_max)));
}

}  // namespace verif

#define VERIF_MAIN(body)                   \
  int main(int argc, char** argv) {        \
    ::verif::Init(argc, argv);             \
    body();                                \
    ::verif::WriteReport();                \
    std::cout.flush();                     \
    std::cerr.flush();                     \
    std::fflush(nullptr);                  \
    return 0;                              \
  }
