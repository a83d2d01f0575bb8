// C16: the ephemeris.  C17: its threads.
#include <atomic>
#include <thread>
#include <chrono>

#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/methods.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/ephemeris.hpp"
#include "solar.hpp"
#if defined(PRINCIPIA_VERIF_MUTEX)
#include "shim_perturb.h"
#else
namespace absl::shim {
inline void SetPerturbation(std::uint64_t) {}
}
#endif

using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;
using namespace principia::integrators::_integrators;
using namespace principia::integrators::_methods;
using namespace principia::integrators::_symmetric_linear_multistep_integrator;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_ephemeris;
using namespace solar;
namespace serialization = principia::serialization;

namespace {

using World = Frame<serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    serialization::Frame::TEST>;
using Eph = Ephemeris<World>;
using Equation = Eph::NewtonianMotionEquation;
using Generalized = Eph::GeneralizedNewtonianMotionEquation;

struct IntegratorSpec {
  char const* name;
  FixedStepSizeIntegrator<Equation> const* integrator;
  int order;
};

std::vector<IntegratorSpec> const& Integrators() {
  static auto const* const result = new std::vector<IntegratorSpec>{
      {"Quinlan1999Order8A",
       &SymmetricLinearMultistepIntegrator<Quinlan1999Order8A, Equation>(),
       8},
      {"QuinlanTremaine1990Order12",
       &SymmetricLinearMultistepIntegrator<QuinlanTremaine1990Order12,
                                           Equation>(),
       12},
      {"BlanesMoan2002SRKN14A",
       &SymplecticRungeKuttaNyströmIntegrator<BlanesMoan2002SRKN14A,
                                              Equation>(),
       6},
      {"McLachlanAtela1992Order5Optimal",
       &SymplecticRungeKuttaNyströmIntegrator<McLachlanAtela1992Order5Optimal,
                                              Equation>(),
       5},
  };
  return *result;
}

Vec AccelerationVec(Vector<Acceleration, World> const& a) {
  auto const c = a.coordinates();
  auto const u = Metre / Second / Second;
  return {c.x / u, c.y / u, c.z / u};
}

Vec JerkVec(Vector<Jerk, World> const& a) {
  auto const c = a.coordinates();
  auto const u = Metre / Second / Second / Second;
  return {c.x / u, c.y / u, c.z / u};
}

struct World0 {
  SystemSpec system;
  IntegratorSpec integrator;
  double step;
  double fitting_tolerance;
  double geopotential_tolerance;

  std::unique_ptr<Eph> New() const {
    return std::make_unique<Eph>(
        MakeBodies<World>(system),
        InitialState<World>(system),
        AtSeconds(system.t0),
        Eph::AccuracyParameters(fitting_tolerance * Metre,
                                geopotential_tolerance),
        Eph::FixedStepParameters(*integrator.integrator, step * Second));
  }

  std::string Describe() const {
    return Str(system.Describe(), " ", integrator.name, " step=", step,
               " fitting=", fitting_tolerance, " geopotential=",
               geopotential_tolerance);
  }

  Instant Time(double const steps) const {
    return AtSeconds(system.t0 + steps * step);
  }
};

World0 RandomWorld(Rng& r, SystemOptions const& o,
                   double const min_steps, double const max_steps) {
  World0 w;
  w.integrator = Integrators()[Int(r, 0, Integrators().size() - 1)];
  // About a day, for the sake of the checkpoints.
  w.step = Chance(r, 0.3) ? 86400 : Uniform(r, 0.7, 8) * 86400;
  w.system = RandomSystem(r, w.step * Uniform(r, min_steps, max_steps), o);
  w.fitting_tolerance =
      w.system.distance * std::exp(Uniform(r, std::log(1e-14),
                                           std::log(1e-9)));
  w.geopotential_tolerance =
      Chance(r, 0.5) ? 0 : std::exp(Uniform(r, std::log(1e-10),
                                            std::log(1e-6)));
  SetCase(w.Describe());
  return w;
}

Instant Between(Rng& r, Instant const& a, Instant const& b) {
  return std::min(std::max(a + Uniform(r, 0, 1) * (b - a), a), b);
}

// The positions of the bodies according to their trajectories, in order.
std::vector<Vec> Positions(Eph const& e, Instant const& t) {
  std::vector<Vec> q;
  for (auto const body : e.bodies()) {
    q.push_back(ToVec(e.trajectory(body)->EvaluatePosition(t)));
  }
  return q;
}

std::vector<Vec> Velocities(Eph const& e, Instant const& t) {
  std::vector<Vec> v;
  for (auto const body : e.bodies()) {
    v.push_back(ToVec(e.trajectory(body)->EvaluateVelocity(t)));
  }
  return v;
}

// The forces at various times and places.
void Forces(Rng& r) {
  SystemOptions o;
  o.oblate = 0.5;
  World0 w = RandomWorld(r, o, 80, 300);
  w.geopotential_tolerance = 0;
  SetCase(w.Describe());
  auto const e = w.New();
  VERIF(e->empty() && e->bodies().size() == w.system.bodies.size(), "empty",
        "");
  VERIF(e->Prolong(w.Time(Uniform(r, 1, 60))).ok(), "prolong:status", "");
  VERIF(!e->empty(), "empty:prolonged", "");
  auto const& bodies = e->bodies();
  std::size_t const n = bodies.size();
  for (std::size_t i = 0; i < n; ++i) {
    VERIF(bodies[i]->name() == w.system.bodies[i].name, "order of bodies",
          bodies[i]->name());
    VERIF(e->body_for_serialization_index(
              e->serialization_index_for_body(bodies[i])) == bodies[i],
          "serialization index", i);
  }
  for (int k = 0; k < 6; ++k) {
    Instant const t = Between(r, e->t_min(), e->t_max());
    Real const s = Seconds(t);
    auto const q = Positions(*e, t);
    auto const v = Velocities(*e, t);
    auto const all_q = e->EvaluateAllPositions(t);
    auto const all_v = e->EvaluateAllVelocities(t);
    auto const all_dof = e->EvaluateAllDegreesOfFreedom(t);
    for (std::size_t i = 0; i < n; ++i) {
      auto const body = bodies[i];
      VERIF(all_q.size() == n && all_v.size() == n && all_dof.size() == n &&
                all_q.at(body) == e->trajectory(body)->EvaluatePosition(t) &&
                all_v.at(body) == e->trajectory(body)->EvaluateVelocity(t) &&
                all_dof.at(body) ==
                    e->trajectory(body)->EvaluateDegreesOfFreedom(t),
            "evaluate all", i);
    }

    // Massless bodies.
    for (int l = 0; l < 8; ++l) {
      std::size_t const near = Int(r, 0, n - 1);
      auto const& b = w.system.bodies[near];
      Vec direction = {Uniform(r, -1, 1), Uniform(r, -1, 1),
                       Uniform(r, -1, 1)};
      if (b.oblate && Chance(r, 0.2)) {
        direction = Polar(b);
      }
      Vec const p0 =
          q[near] + (b.radius * std::exp(Uniform(r, 0.05, 6)) /
                     Norm(direction)) * direction;
      Position<World> const position = ToPosition<World>(p0);
      Vec const p = ToVec(position);
      Velocity<World> const velocity =
          ToVelocity<World>({Uniform(r, -1, 1), Uniform(r, -1, 1),
                             Uniform(r, -1, 1)});
      Vec const u = ToVec(velocity);
      Vec a = {0, 0, 0};
      Real potential = 0;
      Real scale = 0;
      Real potential_scale = 0;
      Vec jerk = {0, 0, 0};
      Real jerk_scale = 0;
      for (std::size_t i = 0; i < n; ++i) {
        auto const& bi = w.system.bodies[i];
        Vec const ai = AccelerationBy(bi, s, q[i], p);
        a += ai;
        potential += PotentialBy(bi, s, q[i], p);
        Vec const d = p - q[i];
        Real const norm = Norm(d);
        // Cancellations in the difference of the positions.
        Real const κ = 1 + Norm(p) / norm;
        scale += Norm(ai) * κ;
        potential_scale += bi.μ / norm * κ;
        Vec const dv = u - v[i];
        jerk += (-bi.μ / (norm * norm * norm)) * dv +
                (3 * bi.μ * Dot(d, dv) / std::pow(norm, 5)) * d;
        jerk_scale += bi.μ / (norm * norm * norm) * Norm(dv) * κ;
      }
      Real const error =
          Norm(AccelerationVec(e->ComputeGravitationalAccelerationOnMasslessBody(
                   position, t)) - a) / scale;
      Max("acceleration on a massless body, relative", error);
      VERIF(error < 1e-12, "forces:massless",
            static_cast<double>(error) << " near " << near);
      Real const potential_error =
          std::abs(e->ComputeGravitationalPotential(position, t) /
                       (Metre * Metre / (Second * Second)) -
                   potential) / potential_scale;
      Max("potential, relative", potential_error);
      VERIF(potential_error < 1e-13, "forces:potential",
            static_cast<double>(potential_error) << " near " << near);
      Real const jerk_error =
          Norm(JerkVec(e->ComputeGravitationalJerkOnMasslessBody(
                   {position, velocity}, t)) - jerk) / jerk_scale;
      Max("jerk, relative", jerk_error);
      VERIF(jerk_error < 1e-13, "forces:jerk",
            static_cast<double>(jerk_error) << " near " << near);
      Count("positions of massless bodies");
    }

    // Massive bodies.
    auto const reference = Accelerations(w.system, s, q);
    auto const accelerations =
        e->ComputeGravitationalAccelerationOnMassiveBodies(bodies, all_q, t);
    auto const jerks =
        e->ComputeGravitationalJerkOnMassiveBodies(bodies, all_dof);
    Vec momentum = {0, 0, 0};
    Real momentum_scale = 0;
    VERIF(accelerations.size() == n && jerks.size() == n, "forces:sizes", "");
    for (std::size_t i = 0; i < n; ++i) {
      VERIF(e->ComputeGravitationalAccelerationOnMassiveBody(bodies[i], t) ==
                accelerations[i],
            "forces:one and all", i);
      VERIF(e->ComputeGravitationalJerkOnMassiveBody(bodies[i], t) == jerks[i],
            "forces:one jerk and all", i);
      Vec const a = AccelerationVec(accelerations[i]);
      Real scale = 1e-300;
      Vec jerk = {0, 0, 0};
      std::array<Vec, 3> jacobian{};
      Real jerk_scale = 1e-300;
      Real jacobian_scale = 1e-300;
      for (std::size_t j = 0; j < n; ++j) {
        if (i == j) {
          continue;
        }
        Vec const d = q[i] - q[j];
        Vec const dv = v[i] - v[j];
        Real const norm = Norm(d);
        Real const κ = 1 + (Norm(q[i]) + Norm(q[j])) / norm;
        Real const μ = w.system.bodies[j].μ;
        scale += μ / (norm * norm) * κ;
        jerk += (-μ / (norm * norm * norm)) * dv +
                (3 * μ * Dot(d, dv) / std::pow(norm, 5)) * d;
        jerk_scale += μ / (norm * norm * norm) * Norm(dv) * κ;
        jacobian_scale += μ / (norm * norm * norm) * κ;
        for (int c = 0; c < 3; ++c) {
          jacobian[c] += (3 * μ * d[c] / std::pow(norm, 5)) * d;
          jacobian[c][c] -= μ / (norm * norm * norm);
        }
      }
      Real const error = Norm(a - reference[i]) / scale;
      Max("acceleration on a massive body, relative", error);
      VERIF(error < 1e-12, "forces:massive",
            static_cast<double>(error) << " for " << i);
      Real const jerk_error = Norm(JerkVec(jerks[i]) - jerk) / jerk_scale;
      VERIF(jerk_error < 1e-13, "forces:jerk of massive",
            static_cast<double>(jerk_error) << " for " << i);
      auto const form = e->ComputeJacobianOnMassiveBody(bodies[i], t);
      for (int c = 0; c < 3; ++c) {
        Vector<double, World> const unit(
            {c == 0 ? 1.0 : 0, c == 1 ? 1.0 : 0, c == 2 ? 1.0 : 0});
        auto const column = (form * unit).coordinates();
        auto const unit2 = 1 / (Second * Second);
        Real const jacobian_error =
            Norm(Vec{column.x / unit2, column.y / unit2, column.z / unit2} -
                 jacobian[c]) / jacobian_scale;
        VERIF(jacobian_error < 1e-13, "forces:jacobian",
              static_cast<double>(jacobian_error) << " for " << i);
      }
      momentum += w.system.bodies[i].μ * a;
      momentum_scale += w.system.bodies[i].μ * scale;
    }
    if (n > 1) {
      VERIF(Norm(momentum) < 1e-12 * momentum_scale, "forces:third law",
            static_cast<double>(Norm(momentum) / momentum_scale));
    }
  }
  Case(Str("forces ", w.Describe()), n > 1);
}

// Truncation errors are only known in order of magnitude.
double TruncationTolerance(World0 const& w, double const time) {
  double const x = 2 * M_PI * w.step / w.system.period;
  double const k = w.integrator.order == 12   ? 1e8
                   : w.integrator.order == 8  ? 3e4
                   : w.integrator.order == 6  ? 10
                                              : 10;
  return k * std::pow(x, w.integrator.order) *
         (1 + std::pow(time / w.system.period, 2));
}

// The motion of the bodies, and of massless ones.
void MotionCase(Rng& r) {
  SystemOptions o;
  o.max_bodies = 5;
  o.oblate = 0.4;
  o.max_degree = 3;
  World0 w = RandomWorld(r, o, 200, 500);
  w.geopotential_tolerance = 0;
  SetCase(w.Describe());
  auto const e = w.New();
  Instant const t_final = w.Time(w.system.period / w.step *
                                 Uniform(r, 0.2, 3));
  VERIF(e->Prolong(t_final).ok(), "motion:status", "");
  auto const& bodies = e->bodies();
  Real t = w.system.t0;
  auto q = w.system.q;
  auto v = w.system.v;
  double const μ_total = [&] {
    double s = 0;
    for (auto const& b : w.system.bodies) {
      s += b.μ;
    }
    return s;
  }();
  for (int k = 1; k <= 4; ++k) {
    Instant const time = w.Time(std::floor(
        (t_final - AtSeconds(w.system.t0)) / (w.step * Second) * k / 4));
    Advance(w.system, t, Seconds(time), q, v);
    Real const elapsed = t - w.system.t0;
    auto const qe = Positions(*e, time);
    auto const ve = Velocities(*e, time);
    double const truncation = TruncationTolerance(w, elapsed);
    Real worst = 0;
    Vec barycentre = {0, 0, 0};
    Vec momentum = {0, 0, 0};
    for (std::size_t i = 0; i < q.size(); ++i) {
      // The bodies which are far from their primary are less sensitive, but
      // they follow it.
      Real const scale = w.system.distance;
      Real const error = Norm(qe[i] - q[i]) / scale;
      worst = std::max(worst, error);
      // Rounding of the positions and of the times, fitting.
      Real const floor =
          (Norm(q[i]) / scale +
           Norm(v[i]) / scale * std::abs(static_cast<Real>(w.system.t0))) *
              1e-15 * (1 + elapsed / w.step * 0.01) +
          w.fitting_tolerance / scale * 30 + 1e-12;
      Max(Str("error of ", w.integrator.name, ", relative to the tolerance"),
          error / (truncation + floor));
      VERIF(error < truncation + floor, "motion:position",
            static_cast<double>(error)
                << " for " << truncation << " and "
                << static_cast<double>(floor) << " body " << i << " after "
                << static_cast<double>(elapsed / w.step) << " steps");
      barycentre += (w.system.bodies[i].μ / μ_total) *
                    (qe[i] - w.system.q[i] - elapsed * w.system.v[i]);
      momentum +=
          (w.system.bodies[i].μ / μ_total) * (ve[i] - w.system.v[i]);
    }
    Real const drift = Norm(barycentre) / w.system.distance;
    Max("drift of the barycentre", drift);
    Real floor = 1e-12 + w.fitting_tolerance / w.system.distance * 30;
    for (std::size_t i = 0; i < q.size(); ++i) {
      floor += (Norm(q[i]) + std::abs(w.system.t0) * Norm(v[i]) +
                Norm(w.system.q[i])) /
               w.system.distance * 1e-14;
    }
    VERIF(drift < floor, "motion:barycentre",
          static_cast<double>(drift) << " for " << static_cast<double>(floor));
  }
  Case(Str("motion ", w.Describe()), bodies.size() > 1);
  Count("bodies followed", bodies.size());
}

// All the ways of prolonging give the same trajectories.
void History(Rng& r) {
  SystemOptions o;
  World0 const w = RandomWorld(r, o, 60, 300);
  auto const reference = w.New();
  auto const e = w.New();
  Instant const t0 = AtSeconds(w.system.t0);
  Time const step = w.step * Second;
  Instant const t_end = w.Time(Uniform(r, 20, 250));
  VERIF(reference->Prolong(t_end).ok() && reference->t_max() >= t_end,
        "history:one go", "");
  int pieces = 0;
  while (e->t_max() < t_end) {
    Instant const before = e->t_max();
    Instant t;
    switch (Int(r, 0, 4)) {
      case 0:
        // In the past.
        t = Between(r, t0 - 10 * step, std::max(before, t0));
        break;
      case 1:
        // By little.
        t = std::max(before, t0) + Uniform(r, 0, 2) * step;
        break;
      case 2:
        t = std::max(before, t0) + Int(r, 1, 20) * step;
        break;
      default:
        t = Between(r, std::max(before, t0), t_end);
        break;
    }
    if (Chance(r, 0.3)) {
      std::int64_t const max_steps = Int(r, 1, 40);
      VERIF(e->Prolong(t, max_steps).ok(), "history:status", "");
      // The integrator may be ahead of the trajectories.
      VERIF(std::max(before, t0) + (max_steps + 16) * step >= e->t_max() ||
                e->t_max() == before,
            "history:too many steps",
            (e->t_max() - before) / step << " for " << max_steps);
    } else {
      VERIF(e->Prolong(t).ok(), "history:status", "");
      VERIF(e->t_max() >= t, "history:t_max", (e->t_max() - t) / Second);
    }
    VERIF(e->t_max() <= std::max(before, std::max(t, t0) + 9 * step),
          "history:too far",
          (e->t_max() - t) / step);
    VERIF(e->t_max() >= before, "history:t_max decreases", "");
    ++pieces;
  }
  VERIF(e->t_min() == reference->t_min() && e->t_min() == t0, "history:t_min",
        (e->t_min() - t0) / Second);
  for (int i = 0; i < 20; ++i) {
    Instant const t =
        Between(r, t0, std::min(e->t_max(), reference->t_max()));
    for (std::size_t b = 0; b < e->bodies().size(); ++b) {
      VERIF(e->trajectory(e->bodies()[b])->EvaluateDegreesOfFreedom(t) ==
                reference->trajectory(reference->bodies()[b])
                    ->EvaluateDegreesOfFreedom(t),
            "history:different", "at " << (t - t0) / step << " for " << b);
    }
  }
  Case(Str("history of ", pieces, " pieces ", w.Describe()), pieces > 1);
}

bool SameAt(Eph const& a, Eph const& b, Instant const& t) {
  for (std::size_t i = 0; i < a.bodies().size(); ++i) {
    if (a.trajectory(a.bodies()[i])->EvaluateDegreesOfFreedom(t) !=
        b.trajectory(b.bodies()[i])->EvaluateDegreesOfFreedom(t)) {
      return false;
    }
  }
  return true;
}

// Writing, reading and reconstructing the past.
void Reanimation(Rng& r) {
  SystemOptions o;
  o.max_bodies = 4;
  o.max_degree = 3;
  World0 const w = RandomWorld(r, o, 60, 300);
  Instant const t0 = AtSeconds(w.system.t0);
  Time const step = w.step * Second;
  auto const reference = w.New();
  // Several checkpoints, hence several times 180 days.
  double const days = Uniform(r, 200, 1500);
  Instant const t_end = w.Time(days * 86400 / w.step);
  reference->Prolong(t_end).IgnoreError();
  serialization::Ephemeris message;
  reference->WriteToMessage(&message);
  serialization::Ephemeris parsed;
  HARNESS_CHECK(parsed.ParseFromString(message.SerializeAsString()));
  std::vector<Instant> checkpoints;
  for (auto const& c : message.checkpoint()) {
    checkpoints.push_back(Instant::ReadFromMessage(c.time()));
  }
  HARNESS_CHECK(!checkpoints.empty());
  for (std::size_t i = 1; i < checkpoints.size(); ++i) {
    Time const gap = checkpoints[i] - checkpoints[i - 1];
    VERIF(gap <= 180 * 86400 * Second + 1.01 * step, "checkpoints:gap",
          gap / (86400 * Second));
  }
  Instant desired = Chance(r, 0.3)
                        ? checkpoints[Int(r, 0, checkpoints.size() - 1)]
                        : Between(r, checkpoints.front(), t_end);
  Instant const first_desired = desired;
  std::unique_ptr<Eph> const e =
      std::move(Eph::ReadFromMessage(desired, parsed));
  // Possibly beyond the end.
  Instant const t_further =
      t_end + (Chance(r, 0.5) ? 0 : Uniform(r, 0, 300)) * step;
  Instant prolonged = desired;
  VERIF(e->bodies().size() == reference->bodies().size(),
        "reading:bodies", "");
  e->Prolong(desired).IgnoreError();
  VERIF(e->t_min() <= desired && e->t_max() >= desired, "reading:bounds",
        (e->t_min() - desired) / step << " " << (e->t_max() - desired) / step);
  reference->Prolong(t_further).IgnoreError();
  auto const compare = [&] {
    for (int i = 0; i < 10; ++i) {
      Instant const t_min = e->t_min();
      Instant t = Between(r, t_min, std::min(e->t_max(), reference->t_max()));
      if (t == t_min && t != reference->t_min()) {
        continue;
      }
      VERIF(SameAt(*e, *reference, t), "reading:different",
            (t - t0) / step << " in " << (t_min - t0) / step << " "
                            << (e->t_max() - t0) / step << " desired "
                            << (first_desired - t0) / step);
      Count("comparisons");
    }
  };
  compare();
  int reanimations = 0;
  for (int i = 0; i < 6; ++i) {
    switch (i == 0 && checkpoints.size() > 2 && Chance(r, 0.6) ? 2
                                                               : Int(r, 0, 4)) {
      case 0:
        e->Prolong(Between(r, desired, t_further)).IgnoreError();
        break;
      case 2: {
        // Interrupted, if possible after some of the work has been done.
        Instant const t_min = e->t_min();
        e->RequestReanimation(checkpoints.front());
        if (Chance(r, 0.8)) {
          for (int j = 0; j < 2000 && e->t_min() == t_min &&
                          t_min > checkpoints.front() + step;
               ++j) {
            std::this_thread::sleep_for(std::chrono::microseconds(500));
          }
        }
        e->RequestReanimation(t_end);
        Instant const interrupted = e->t_min();
        Count("interruptions", interrupted < t_min &&
                                   interrupted > checkpoints.front() + step);
        break;
      }
      case 1:
        e->RequestReanimation(Between(r, checkpoints.front(), t_end));
        break;
      default:
        desired = Between(r, checkpoints.front(), t_end);
        e->AwaitReanimation(desired);
        VERIF(e->t_min() <= desired, "reanimation:t_min",
              (e->t_min() - desired) / step);
        ++reanimations;
        break;
    }
    compare();
  }
  e->Prolong(t_further).IgnoreError();
  e->AwaitReanimation(checkpoints.front());
  VERIF(e->t_max() >= t_further, "reanimation:t_max", "");
  compare();
  // The trajectories of the last checkpoint's bodies.
  serialization::Ephemeris message2;
  e->WriteToMessage(&message2);
  serialization::Ephemeris message3;
  reference->WriteToMessage(&message3);
  if (e->t_max() == reference->t_max()) {
    VERIF(message2.SerializeAsString() == message3.SerializeAsString(),
          "reanimation:written", "");
    Count("identical saves");
  }
  Case(Str("reanimation, checkpoints: ", checkpoints.size(), " ",
           w.Describe()),
       checkpoints.size() > 1 || reanimations > 0);
  Count("checkpoints", checkpoints.size());
}

// The massless bodies.
struct Flow {
  explicit Flow(Rng& r) : r(r) {
    SystemOptions o;
    o.max_bodies = 4;
    o.max_degree = 3;
    w = RandomWorld(r, o, 100, 300);
    w.geopotential_tolerance = 0;
    SetCase(w.Describe());
    e = w.New();
    e->Prolong(w.Time(Int(r, 0, 60))).IgnoreError();
  }

  // Around a body, not too close, not too far.
  void RandomVessel(Vec& q, Vec& v, double& period) {
    std::size_t i = 0;
    for (std::size_t j = 0; j < w.system.bodies.size(); ++j) {
      if (w.system.bodies[j].μ > w.system.bodies[i].μ) {
        i = j;
      }
    }
    auto const& b = w.system.bodies[i];
    double const a = w.system.distance * Uniform(r, 0.3, 0.6);
    Kepler(b.μ, a, Uniform(r, 0, 0.3), Uniform(r, 0, 3), Uniform(r, 0, 6),
           Uniform(r, 0, 6), Uniform(r, 0, 6), q, v);
    q += w.system.q[i];
    v += w.system.v[i];
    period = 2 * M_PI * std::sqrt(a * a * a / static_cast<double>(b.μ));
  }

  // Integrates with the model, along with the bodies.
  void Reference(Vec const& acceleration, double const drag, Vec& q, Vec& v,
                 Instant const& from, Instant const& to, double const period) {
    Real t = Seconds(from);
    std::size_t const n = w.system.bodies.size();
    auto const f = [&](Real const t, std::vector<Vec> const& x,
                       std::vector<Vec> const& u) {
      std::vector<Vec> bodies(x.begin(), x.begin() + n);
      auto a = Accelerations(w.system, t, bodies);
      Vec total = acceleration - drag * u[n];
      for (std::size_t i = 0; i < n; ++i) {
        total += AccelerationBy(w.system.bodies[i], t, x[i], x[n]);
      }
      a.push_back(total);
      return a;
    };
    Real t_bodies = w.system.t0;
    auto x = w.system.q;
    auto u = w.system.v;
    Advance(w.system, t_bodies, t, x, u);
    x.push_back(q);
    u.push_back(v);
    Real const interval = Seconds(to) - t;
    int const steps =
        std::max<int>(1, std::ceil(interval / (period / 40)));
    Real const start = t;
    for (int i = 0; i < steps; ++i) {
      ExtrapolationStep(f, t, interval / steps, x, u);
      t = start + interval * (i + 1) / steps;
    }
    q = x[n];
    v = u[n];
  }

  void Adaptive() {
    Vec q0;
    Vec v0;
    double period;
    RandomVessel(q0, v0, period);
    DiscreteTrajectory<World> trajectory;
    Instant const start = AtSeconds(w.system.t0);
    trajectory.Append(start, ToDof<World>(q0, v0)).IgnoreError();
    q0 = ToVec(trajectory.back().degrees_of_freedom.position());
    v0 = ToVec(trajectory.back().degrees_of_freedom.velocity());
    double const tolerance =
        w.system.distance * std::exp(Uniform(r, std::log(1e-10),
                                             std::log(1e-5)));
    double const speed_tolerance = tolerance * 2 * M_PI / period;
    bool const generalized = Chance(r, 0.5);
    double const drag = generalized ? Uniform(r, 0, 0.02) / period : 0;
    double const thrust =
        Norm(v0) / period * (Chance(r, 0.5) ? 0 : Uniform(r, 0, 0.05));
    Vec const acceleration = {Uniform(r, -1, 1) * thrust,
                              Uniform(r, -1, 1) * thrust,
                              Uniform(r, -1, 1) * thrust};
    Vector<Acceleration, World> const intrinsic(
        {static_cast<double>(acceleration[0]) * (Metre / Second / Second),
         static_cast<double>(acceleration[1]) * (Metre / Second / Second),
         static_cast<double>(acceleration[2]) * (Metre / Second / Second)});
    Instant const t_final =
        start + Uniform(r, 0.1, 2) * period * Second;
    std::int64_t const max_steps =
        Chance(r, 0.2) ? Int(r, 1, 30) : 100'000;
    std::int64_t const max_ephemeris_steps =
        Chance(r, 0.2) ? Int(r, 1, 50) : Eph::unlimited_max_ephemeris_steps;
    int const pieces = static_cast<int>(Int(r, 1, 4));
    bool reached = true;
    std::int64_t last_size = 1;
    for (int k = 1; k <= pieces && reached; ++k) {
      Instant const t = k == pieces
                            ? t_final
                            : start + k * (t_final - start) / pieces;
      last_size = trajectory.size();
      absl::Status status;
      if (generalized) {
        status = e->FlowWithAdaptiveStep(
            &trajectory,
            [intrinsic, drag](Instant const&,
                              DegreesOfFreedom<World> const& dof) {
              return intrinsic - drag / Second * (dof.velocity() -
                                                  World::unmoving);
            },
            t,
            Eph::GeneralizedAdaptiveStepParameters(
                EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
                    Fine1987RKNG34, Generalized>(),
                max_steps,
                tolerance * Metre,
                speed_tolerance * (Metre / Second)),
            max_ephemeris_steps);
      } else {
        Eph::IntrinsicAcceleration const f =
            [intrinsic](Instant const&) { return intrinsic; };
        status = e->FlowWithAdaptiveStep(
            &trajectory,
            thrust == 0 ? Eph::IntrinsicAcceleration(nullptr) : f,
            t,
            Eph::AdaptiveStepParameters(
                EmbeddedExplicitRungeKuttaNyströmIntegrator<
                    DormandالمكاوىPrince1986RKN434FM, Equation>(),
                max_steps,
                tolerance * Metre,
                speed_tolerance * (Metre / Second)),
            max_ephemeris_steps);
      }
      reached = trajectory.back().time == t;
      VERIF(status.ok() == reached, "adaptive:status",
            status << " at " << (trajectory.back().time - t) / Second);
      VERIF(trajectory.back().time <= t, "adaptive:too far",
            (trajectory.back().time - t) / Second);
      VERIF(trajectory.size() - last_size <= max_steps, "adaptive:max steps",
            trajectory.size() - last_size << " for " << max_steps);
      VERIF(reached || max_steps < 100 ||
                max_ephemeris_steps < 100,
            "adaptive:not reached", status);
      if (!reached && max_steps > 100) {
        VERIF(absl::IsDeadlineExceeded(status) &&
                  trajectory.back().time == e->t_max(),
              "adaptive:deadline",
              status << " " << (trajectory.back().time - e->t_max()) / Second);
        Count("deadlines exceeded");
      }
    }
    Count(reached ? "adaptive flows which reached the end"
                  : "adaptive flows which did not");
    // Against the reference.
    Instant const t = trajectory.back().time;
    if (t > start) {
      Reference(acceleration, drag, q0, v0, start, t, period);
      Vec const q = ToVec(trajectory.back().degrees_of_freedom.position());
      Real const error = Norm(q - q0);
      double const n = (t - start) / Second / period;
      // Each step makes an error of about the tolerance, which grows.
      double const bound =
          (tolerance * trajectory.size() * (1 + 20 * n) +
           w.system.distance *
               (1e-11 + TruncationTolerance(w, (t - start) / Second)) +
           w.fitting_tolerance * 30 +
           static_cast<double>(Norm(q) + Norm(v0) * std::abs(w.system.t0)) *
               1e-14 * trajectory.size()) *
          (1 + n);
      Max("error of adaptive flows, relative to the bound", error / bound);
      VERIF(error < bound, "adaptive:position",
            static_cast<double>(error)
                << " for " << bound << " after " << n << " revolutions, "
                << trajectory.size() << " points, tolerance " << tolerance
                << " generalized " << generalized);
    }
    Case(Str("adaptive, tolerance=", tolerance, " generalized=", generalized,
             " thrust=", thrust, " points=", trajectory.size(), " ",
             w.Describe()));
  }

  void Fixed() {
    std::size_t const n = Int(r, 1, 3);
    std::vector<Vec> q(n);
    std::vector<Vec> v(n);
    std::vector<double> periods(n);
    double period = 1e300;
    for (std::size_t i = 0; i < n; ++i) {
      RandomVessel(q[i], v[i], periods[i]);
      period = std::min(period, periods[i]);
    }
    auto const& integrator =
        *Integrators()[Int(r, 0, 1) == 0 ? 0 : 2].integrator;
    double const step = period / Uniform(r, 150, 400);
    Instant const start = AtSeconds(w.system.t0);
    Instant const t_final = start + Uniform(r, 5, 400) * step * Second;
    std::vector<Vec> accelerations;
    Eph::IntrinsicAccelerations intrinsics;
    for (std::size_t i = 0; i < n; ++i) {
      double const thrust =
          Norm(v[i]) / period * (Chance(r, 0.5) ? 0 : Uniform(r, 0, 0.05));
      Vec const a = {Uniform(r, -1, 1) * thrust, Uniform(r, -1, 1) * thrust,
                     Uniform(r, -1, 1) * thrust};
      accelerations.push_back(a);
      Vector<Acceleration, World> const intrinsic(
          {static_cast<double>(a[0]) * (Metre / Second / Second),
           static_cast<double>(a[1]) * (Metre / Second / Second),
           static_cast<double>(a[2]) * (Metre / Second / Second)});
      if (thrust == 0) {
        intrinsics.push_back(nullptr);
      } else {
        intrinsics.push_back(
            [intrinsic](Instant const&) { return intrinsic; });
      }
    }
    // In one go, or in pieces.
    std::vector<std::vector<DiscreteTrajectory<World>>> results;
    for (bool const one_go : {true, false}) {
      std::vector<DiscreteTrajectory<World>> trajectories(n);
      std::vector<not_null<DiscreteTrajectory<World>*>> pointers;
      for (std::size_t i = 0; i < n; ++i) {
        trajectories[i]
            .Append(start, ToDof<World>(q[i], v[i]))
            .IgnoreError();
        pointers.push_back(&trajectories[i]);
      }
      auto const instance = e->NewInstance(
          pointers, intrinsics,
          Eph::FixedStepParameters(integrator, step * Second));
      std::vector<Instant> times;
      if (!one_go) {
        for (int k = static_cast<int>(Int(r, 0, 10)); k > 0; --k) {
          times.push_back(Between(r, start, t_final));
        }
        std::sort(times.begin(), times.end());
      }
      times.push_back(t_final);
      for (auto const& t : times) {
        absl::Status const status = e->FlowWithFixedStep(t, *instance);
        VERIF(status.ok(), "fixed:status", status);
        // Only the last time is guaranteed for multistep integrators, which
        // are ahead when they start.
        for (auto const& trajectory : trajectories) {
          Time const gap = t - trajectory.back().time;
          VERIF(gap >= 0 * Second && gap < step * 1.0001 * Second,
                "fixed:last time", gap / Second << " for " << step);
        }
      }
      results.push_back(std::move(trajectories));
    }
    for (std::size_t i = 0; i < n; ++i) {
      auto const& a = results[0][i];
      auto const& b = results[1][i];
      bool same = a.size() == b.size();
      auto ita = a.begin();
      auto itb = b.begin();
      for (; same && ita != a.end(); ++ita, ++itb) {
        same = ita->time == itb->time &&
               ita->degrees_of_freedom == itb->degrees_of_freedom;
      }
      VERIF(same, "fixed:pieces", a.size() << " and " << b.size());
      // Equally spaced.
      Instant previous = start;
      for (auto const& [time, _] : a) {
        if (time != start) {
          VERIF(std::abs((time - previous) / Second - step) <=
                    1e-9 * step + std::abs((time - Instant()) / Second) * 1e-15,
                "fixed:step", (time - previous) / Second << " for " << step);
        }
        previous = time;
      }
      Vec q0 = ToVec(a.front().degrees_of_freedom.position());
      Vec v0 = ToVec(a.front().degrees_of_freedom.velocity());
      Instant const t = a.back().time;
      if (t == start) {
        continue;
      }
      Reference(accelerations[i], 0, q0, v0, start, t, period);
      Real const error =
          Norm(ToVec(a.back().degrees_of_freedom.position()) - q0);
      double const revolutions = (t - start) / Second / period;
      double const bound =
          (w.system.distance *
               (1e-9 + TruncationTolerance(w, (t - start) / Second)) +
           w.fitting_tolerance * 30 +
           static_cast<double>(Norm(q0) + Norm(v0) * std::abs(w.system.t0)) *
               1e-14 * a.size()) *
          (1 + 10 * revolutions * revolutions);
      Max("error of fixed flows, relative to the bound", error / bound);
      VERIF(error < bound, "fixed:position",
            static_cast<double>(error) << " for " << bound << " after "
                                       << revolutions << " revolutions");
    }
    Case(Str("fixed, vessels=", n, " points=", results[0][0].size(), " ",
             w.Describe()));
    Count("fixed flows", n);
  }

  // Falling on a body.
  void Collision() {
    std::size_t const i = Int(r, 0, w.system.bodies.size() - 1);
    auto const& b = w.system.bodies[i];
    if (!b.rotating) {
      return;
    }
    Vec direction = {Uniform(r, -1, 1), Uniform(r, -1, 1), Uniform(r, -1, 1)};
    direction = (1 / Norm(direction)) * direction;
    double const height = b.radius * Uniform(r, 1.1, 3);
    Real const fall =
        std::sqrt(height * height * height / static_cast<double>(b.μ));
    Instant const start = AtSeconds(w.system.t0);
    DiscreteTrajectory<World> trajectory;
    trajectory
        .Append(start, ToDof<World>(w.system.q[i] + height * direction,
                                    w.system.v[i]))
        .IgnoreError();
    auto const instance = e->NewInstance(
        {&trajectory}, {},
        Eph::FixedStepParameters(*Integrators()[2].integrator,
                                 static_cast<double>(fall) / 100 * Second));
    absl::Status status;
    for (int k = 1; k <= 600 && status.ok(); ++k) {
      status = e->FlowWithFixedStep(
          start + k * static_cast<double>(fall) / 100 * Second, *instance);
    }
    VERIF(absl::IsOutOfRange(status), "collision:status", status);
    // Not detected before it happens.
    Real const distance =
        Norm(ToVec(trajectory.back().degrees_of_freedom.position()) -
             ToVec(e->trajectory(e->bodies()[i])
                       ->EvaluatePosition(trajectory.back().time)));
    VERIF(distance >= 0.5 * b.radius && distance < 1.5 * b.radius,
          "collision:distance",
          static_cast<double>(distance / b.radius) << " radii");
    Count("collisions");
  }

  Rng& r;
  World0 w;
  std::unique_ptr<Eph> e;
};

// Several threads prolong, flow, evaluate and reanimate; the results are those
// of a single thread.
void Threads(Rng& r) {
  SystemOptions o;
  o.min_bodies = 2;
  o.max_bodies = 4;
  o.max_degree = 3;
  World0 const w = RandomWorld(r, o, 60, 300);
  absl::shim::SetPerturbation(r() | 1);
  Instant const t0 = AtSeconds(w.system.t0);
  Time const step = w.step * Second;
  auto const original = w.New();
  Instant const t_mid = w.Time(Uniform(r, 400, 900) * 86400 / w.step);
  Instant const t_end = t_mid + Uniform(r, 400, 900) * 86400 * Second;
  original->Prolong(t_mid).IgnoreError();
  serialization::Ephemeris message;
  original->WriteToMessage(&message);
  Instant const oldest =
      Instant::ReadFromMessage(message.checkpoint(0).time());
  Instant const desired = Between(r, t0 + 0.7 * (t_mid - t0), t_mid);
  std::unique_ptr<Eph> const e =
      std::move(Eph::ReadFromMessage(desired, message));
  e->Prolong(desired).IgnoreError();

  struct Vessel {
    Vec q;
    Vec v;
    double period;
    Instant start;
    Instant end;
    double tolerance;
  };
  std::vector<Vessel> vessels;
  for (int i = 0; i < 3; ++i) {
    Vessel v;
    std::size_t heaviest = 0;
    for (std::size_t j = 0; j < w.system.bodies.size(); ++j) {
      if (w.system.bodies[j].μ > w.system.bodies[heaviest].μ) {
        heaviest = j;
      }
    }
    auto const& b = w.system.bodies[heaviest];
    v.start = Between(r, desired, t_mid);
    v.end = Between(r, v.start, t_end) + 0.1 * step;
    original->Prolong(v.start).IgnoreError();
    double const a = w.system.distance * Uniform(r, 0.3, 0.6);
    Kepler(b.μ, a, Uniform(r, 0, 0.3), Uniform(r, 0, 3), Uniform(r, 0, 6),
           Uniform(r, 0, 6), Uniform(r, 0, 6), v.q, v.v);
    v.q += Positions(*original, v.start)[heaviest];
    v.v += Velocities(*original, v.start)[heaviest];
    v.period = 2 * M_PI * std::sqrt(a * a * a / static_cast<double>(b.μ));
    v.tolerance = a * 1e-6;
    vessels.push_back(v);
  }
  auto const flow = [&w](Eph& e, Vessel const& v, bool const adaptive,
                         DiscreteTrajectory<World>& trajectory) {
    trajectory.Append(v.start, ToDof<World>(v.q, v.v)).IgnoreError();
    if (adaptive) {
      e.FlowWithAdaptiveStep(
           &trajectory,
           Eph::NoIntrinsicAcceleration,
           v.end,
           Eph::AdaptiveStepParameters(
               EmbeddedExplicitRungeKuttaNyströmIntegrator<
                   DormandالمكاوىPrince1986RKN434FM, Equation>(),
               100'000,
               v.tolerance * Metre,
               v.tolerance * 6 / v.period * (Metre / Second)))
          .IgnoreError();
    } else {
      auto const instance = e.NewInstance(
          {&trajectory}, {},
          Eph::FixedStepParameters(*Integrators()[0].integrator,
                                   v.period / 150 * Second));
      for (int k = 1; k <= 5; ++k) {
        e.FlowWithFixedStep(v.start + k * (v.end - v.start) / 5, *instance)
            .IgnoreError();
      }
    }
  };
  bool const adaptive0 = Chance(r, 0.5);
  std::vector<DiscreteTrajectory<World>> concurrent(vessels.size());
  std::vector<std::thread> threads;
  std::atomic<int> running = 0;
  for (std::size_t i = 0; i < vessels.size(); ++i) {
    threads.emplace_back([&, i] {
      ++running;
      flow(*e, vessels[i], (i % 2 == 0) == adaptive0, concurrent[i]);
      --running;
    });
  }
  std::uint64_t const seed1 = r();
  threads.emplace_back([&, seed1] {
    Rng r(seed1);
    ++running;
    for (int i = 0; i < 12; ++i) {
      e->Prolong(Between(r, desired, t_end)).IgnoreError();
    }
    e->Prolong(t_end).IgnoreError();
    --running;
  });
  std::uint64_t const seed2 = r();
  std::vector<std::pair<Instant, Vector<Acceleration, World>>> seen;
  std::vector<std::pair<Instant, DegreesOfFreedom<World>>> seen_dof;
  Position<World> const somewhere =
      ToPosition<World>(vessels[0].q);
  threads.emplace_back([&, seed2] {
    Rng r(seed2);
    ++running;
    for (int i = 0; i < 30; ++i) {
      if (Chance(r, 0.15)) {
        Instant const t = Between(r, oldest, desired);
        e->AwaitReanimation(t);
        VERIF(e->t_min() <= t, "threads:t_min", (e->t_min() - t) / step);
      } else if (Chance(r, 0.2)) {
        e->RequestReanimation(Between(r, oldest, desired));
      }
      if (Chance(r, 0.1)) {
        serialization::Ephemeris m;
        e->WriteToMessage(&m);
      }
      // The t_min may only decrease and the t_max increase.
      Instant const t_min = e->t_min();
      Instant const t = Between(r, t_min, e->t_max());
      for (auto const& b : e->bodies()) {
        auto const trajectory = e->trajectory(b);
        VERIF(trajectory->t_min() <= t_min && t <= trajectory->t_max() &&
                  !trajectory->empty(),
              "threads:bounds", (trajectory->t_min() - t_min) / step);
      }
      if (t == t_min) {
        continue;
      }
      seen.emplace_back(
          t, e->ComputeGravitationalAccelerationOnMasslessBody(somewhere, t));
      auto const body = e->bodies().back();
      seen_dof.emplace_back(t,
                            e->trajectory(body)->EvaluateDegreesOfFreedom(t));
      auto const all = e->EvaluateAllDegreesOfFreedom(t);
      VERIF(all.at(body) == seen_dof.back().second, "threads:evaluation", "");
    }
    --running;
  });
  // Observers which do as little as possible besides calling one accessor, so
  // that nothing else synchronizes them with the writers.
  std::atomic<bool> done = false;
  std::vector<std::thread> observers;
  std::atomic<std::int64_t> observations = 0;
  for (int k = 0; k < 2; ++k) {
    observers.emplace_back([&, k] {
      auto const& bodies = e->bodies();
      std::vector<principia::physics::_continuous_trajectory::ContinuousTrajectory<World> const*> trajectories;
      for (auto const& b : bodies) trajectories.push_back(e->trajectory(b));
      Instant least = InfiniteFuture;
      std::int64_t i = 0;
      for (; !done.load(std::memory_order_relaxed) && i < 100'000; ++i) {
        // A burst on the same accessor, then another one.
        auto const& trajectory = *trajectories[i / 16 % trajectories.size()];
        switch ((i / 8 + k) % 3) {
          case 0: {
            Instant const t = trajectory.t_min();
            VERIF(t <= desired, "threads:t_min", (t - t0) / step);
            least = std::min(least, t);
            break;
          }
          case 1:
            VERIF(trajectory.t_max() >= t0, "threads:t_max", "");
            break;
          case 2:
            VERIF(!trajectory.empty(), "threads:empty", "");
            break;
        }
        if (i % 4 == 3) {
          std::this_thread::sleep_for(std::chrono::microseconds(50));
        }
      }
      observations += i;
    });
  }
  for (auto& thread : threads) {
    thread.join();
  }
  done = true;
  for (auto& observer : observers) {
    observer.join();
  }
  Count("observations", observations);
  absl::shim::SetPerturbation(0);
  original->Prolong(t_end).IgnoreError();
  for (std::size_t i = 0; i < vessels.size(); ++i) {
    DiscreteTrajectory<World> sequential;
    flow(*original, vessels[i], (i % 2 == 0) == adaptive0, sequential);
    bool same = sequential.size() == concurrent[i].size();
    auto it = concurrent[i].begin();
    for (auto const& p : sequential) {
      same = same && it->time == p.time &&
             it->degrees_of_freedom == p.degrees_of_freedom;
      if (!same) {
        break;
      }
      ++it;
    }
    VERIF(same, "threads:flow",
          sequential.size() << " and " << concurrent[i].size());
  }
  for (auto const& [t, a] : seen) {
    VERIF(original->ComputeGravitationalAccelerationOnMasslessBody(somewhere,
                                                                   t) == a,
          "threads:acceleration", (t - t0) / step);
  }
  for (auto const& [t, dof] : seen_dof) {
    VERIF(original->trajectory(original->bodies().back())
                  ->EvaluateDegreesOfFreedom(t) == dof,
          "threads:degrees of freedom", (t - t0) / step);
  }
  Count("concurrent evaluations", seen.size());
  Case(Str("threads ", w.Describe()));
}

// Several threads wait for the reanimation of different times while others
// request it, mostly of later times: each gets what it waits for.
void Awaiting(Rng& r) {
  SystemOptions o;
  o.min_bodies = 2;
  o.max_bodies = 3;
  o.max_degree = 3;
  World0 const w = RandomWorld(r, o, 60, 150);
  Instant const t0 = AtSeconds(w.system.t0);
  Time const step = w.step * Second;
  auto const original = w.New();
  Instant const t_mid = w.Time(Uniform(r, 900, 1500) * 86400 / w.step);
  original->Prolong(t_mid).IgnoreError();
  serialization::Ephemeris message;
  original->WriteToMessage(&message);
  Instant const oldest =
      Instant::ReadFromMessage(message.checkpoint(0).time());
  for (int round = 0; round < 4; ++round) {
    Instant const desired = Between(r, t0 + 0.9 * (t_mid - t0), t_mid);
    std::unique_ptr<Eph> const e =
        std::move(Eph::ReadFromMessage(desired, message));
    e->Prolong(desired).IgnoreError();
    absl::shim::SetPerturbation(r() | 1);
    Watchdog watchdog("awaiting:no answer", 150);
    std::vector<std::thread> threads;
    std::atomic<int> awaiting = 0;
    std::atomic<int> requests = 0;
    int const awaiters = Int(r, 2, 4);
    for (int i = 0; i < awaiters; ++i) {
      std::vector<Instant> times;
      int const n = Int(r, 1, 3);
      for (int j = 0; j < n; ++j) {
        times.push_back(Between(r, oldest, desired));
      }
      if (Chance(r, 0.7)) {
        std::sort(times.begin(), times.end(), std::greater<>());
      }
      ++awaiting;
      threads.emplace_back([&, times] {
        for (Instant const& t : times) {
          e->AwaitReanimation(t);
          VERIF(e->t_min() <= t, "awaiting:t_min", (e->t_min() - t) / step);
        }
        --awaiting;
      });
    }
    int const requesters = Int(r, 0, 2);
    for (int i = 0; i < requesters; ++i) {
      std::uint64_t const seed = r();
      threads.emplace_back([&, seed] {
        Rng r(seed);
        // Requests without end for more then less work may delay the work
        // without end.
        for (int j = 0; j < 60 && awaiting > 0; ++j) {
          e->RequestReanimation(
              Chance(r, 0.7) ? desired : Between(r, oldest, desired));
          ++requests;
          std::this_thread::sleep_for(
              std::chrono::microseconds(Int(r, 100, 5000)));
        }
      });
    }
    for (auto& thread : threads) {
      thread.join();
    }
    absl::shim::SetPerturbation(0);
    Count("threads awaiting a reanimation", awaiters);
    Count("concurrent requests", requests);
    Count("checkpoints", message.checkpoint_size());
    // What was reanimated is what was there in the first place.
    for (int i = 0; i < 5; ++i) {
      Instant const t_min = e->t_min();
      Instant const t = Between(r, t_min, e->t_max());
      if (t == t_min) {
        continue;
      }
      VERIF(e->EvaluateAllDegreesOfFreedom(t).at(e->bodies().front()) ==
                original->EvaluateAllDegreesOfFreedom(t).at(
                    original->bodies().front()),
            "awaiting:degrees of freedom", (t - t0) / step);
    }
    Case(Str("awaiting ", w.Describe(), " ", round, " ", awaiters, " ",
             requesters));
  }
}

void Body() {
  auto r = MakeRng("worlds");
  if (Selected("forces")) {
    for (std::int64_t i = 0; i < N(60); ++i) {
      Forces(r);
    }
  }
  if (Selected("motion")) {
    for (std::int64_t i = 0; i < N(25); ++i) {
      MotionCase(r);
    }
  }
  if (Selected("history")) {
    for (std::int64_t i = 0; i < N(60); ++i) {
      History(r);
    }
  }
  if (Selected("reanimation")) {
    for (std::int64_t i = 0; i < N(25); ++i) {
      Reanimation(r);
    }
  }
  if (Selected("flow")) {
    for (std::int64_t i = 0; i < N(30); ++i) {
      Flow f(r);
      f.Adaptive();
      f.Fixed();
      f.Collision();
    }
  }
  if (Selected("threads")) {
    for (std::int64_t i = 0; i < N(8); ++i) {
      Watchdog watchdog("threads:no answer", 200);
      Threads(r);
    }
  }
  if (Selected("awaiting")) {
    for (std::int64_t i = 0; i < N(12); ++i) {
      Awaiting(r);
    }
  }
}

}  // namespace

VERIF_MAIN(Body)
