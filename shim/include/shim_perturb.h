#pragma once
#include <cstdint>
namespace absl::shim {
// 0, the default, disables the perturbations.
void SetPerturbation(std::uint64_t seed);
std::uint64_t Perturbations();
// Called around lock operations in the builds with PRINCIPIA_VERIF_MUTEX; may
// also be called by workloads.
void Perturb();
}  // namespace absl::shim
