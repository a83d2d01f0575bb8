// Perturbation of the schedule around lock operations, for the builds with
// PRINCIPIA_VERIF_MUTEX.  The delays are drawn from a per-thread generator.
#include <atomic>
#include <chrono>
#include <cstdint>
#include <thread>

#include "shim_perturb.h"

namespace absl::shim {
namespace {
std::atomic<std::uint64_t> seed = 0;
std::atomic<std::uint64_t> threads = 0;
std::atomic<std::uint64_t> perturbations = 0;
thread_local std::uint64_t state = 0;
}  // namespace

void SetPerturbation(std::uint64_t const s) { seed.store(s); }
std::uint64_t Perturbations() { return perturbations.load(); }

void Perturb() {
  std::uint64_t const s = seed.load(std::memory_order_relaxed);
  if (s == 0) return;
  if (state == 0) {
    state = s * 0x9E3779B97F4A7C15ull + threads.fetch_add(1) * 0xD1B54A32D192ED03ull;
    if (state == 0) state = 1;
  }
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  std::uint64_t const r = state % 64;
  if (r < 8) {
    perturbations.fetch_add(1, std::memory_order_relaxed);
    std::this_thread::yield();
  } else if (r < 12) {
    perturbations.fetch_add(1, std::memory_order_relaxed);
    std::this_thread::sleep_for(std::chrono::microseconds(state >> 8 & 255));
  }
}

}  // namespace absl::shim
