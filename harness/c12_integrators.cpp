// C12: numerical integrators.
#include <absl/synchronization/mutex.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "base/not_null.hpp"
#include "geometry/direct_sum.hpp"
#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_integrator.hpp"
#include "integrators/embedded_explicit_runge_kutta_nyström_integrator.hpp"
#include "integrators/explicit_linear_multistep_integrator.hpp"
#include "integrators/explicit_runge_kutta_integrator.hpp"
#include "integrators/integrators.hpp"
#include "integrators/methods.hpp"
#include "integrators/ordinary_differential_equations.hpp"
#include "integrators/symmetric_linear_multistep_integrator.hpp"
#include "integrators/symplectic_runge_kutta_nyström_integrator.hpp"
#include "integrators/чебышёв_picard_integrator.hpp"
#include "numerics/double_precision.hpp"
#include "numerics/elementary_functions.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/integrators.pb.h"
#include "verif.hpp"

using namespace principia::base::_not_null;
using namespace principia::geometry::_direct_sum;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::integrators::_embedded_explicit_generalized_runge_kutta_nyström_integrator;  // NOLINT
using namespace principia::integrators::_embedded_explicit_runge_kutta_integrator;  // NOLINT
using namespace principia::integrators::_embedded_explicit_runge_kutta_nyström_integrator;  // NOLINT
using namespace principia::integrators::_explicit_linear_multistep_integrator;
using namespace principia::integrators::_explicit_runge_kutta_integrator;
using namespace principia::integrators::_integrators;
using namespace principia::integrators::_ordinary_differential_equations;
using namespace principia::integrators::_symmetric_linear_multistep_integrator;
using namespace principia::integrators::_symplectic_runge_kutta_nyström_integrator;  // NOLINT
using namespace principia::integrators::_чебышёв_picard_integrator;
using namespace principia::numerics::_double_precision;
using namespace principia::numerics::_elementary_functions;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace methods = principia::integrators::_methods;
namespace serialization = principia::serialization;
using namespace verif;

namespace {

using World = Frame<serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    serialization::Frame::TEST>;
using P = Position<World>;
using V = Velocity<World>;
using A = Vector<Acceleration, World>;
using Special = SpecialSecondOrderDifferentialEquation<P>;
using General = ExplicitSecondOrderOrdinaryDifferentialEquation<P>;
using First = ExplicitFirstOrderOrdinaryDifferentialEquation<Instant, Displacement<World>, V>;

using R3 = std::array<long double, 3>;

Displacement<World> D(R3 const& x) {
  return Displacement<World>({static_cast<double>(x[0]) * Metre,
                              static_cast<double>(x[1]) * Metre,
                              static_cast<double>(x[2]) * Metre});
}
R3 X(P const& p) {
  auto const& c = (p - World::origin).coordinates();
  return {c.x / Metre, c.y / Metre, c.z / Metre};
}
R3 X(Displacement<World> const& d) { return X(World::origin + d); }
R3 X(V const& v) {
  auto const& c = v.coordinates();
  return {c.x / (Metre / Second), c.y / (Metre / Second),
          c.z / (Metre / Second)};
}

// A system of `n` points, whose solution `s` is known, and which is not linear,
// not autonomous and, for the general equations, depends on the velocity.
struct Problem {
  int n;
  bool kepler;
  double t0;
  // Of Kepler orbits.
  std::vector<double> e;
  std::vector<double> μ;
  // Of manufactured solutions.
  std::vector<std::array<double, 3>> amplitude, ω, φ;
  double linear, quadratic, cubic, damping, drag;

  static Problem Random(Rng& r, bool const general) {
    Problem p;
    p.n = Int(r, 1, 3);
    p.kepler = !general && Chance(r, 0.4);
    p.t0 = Chance(r, 0.2) ? 0 : Uniform(r, -50, 50);
    for (int k = 0; k < p.n; ++k) {
      p.e.push_back(Uniform(r, 0, 0.25));
      p.μ.push_back(Uniform(r, 0.5, 1.5));
      std::array<double, 3> a, w, f;
      for (int i = 0; i < 3; ++i) {
        a[i] = Uniform(r, 0.3, 2);
        w[i] = Uniform(r, 0.4, 1.3);
        f[i] = Uniform(r, 0, 6.3);
      }
      p.amplitude.push_back(a);
      p.ω.push_back(w);
      p.φ.push_back(f);
    }
    p.linear = Uniform(r, 0.5, 2);
    p.quadratic = Uniform(r, -0.5, 0.5);
    p.cubic = Uniform(r, 0, 0.5);
    p.damping = general ? Uniform(r, 0.1, 0.5) : 0;
    p.drag = general ? Uniform(r, 0, 0.3) : 0;
    return p;
  }

  void Exact(Instant const& t, long double const extra, int const k, R3& x,
             R3& v) const {
    long double const τ = static_cast<long double>((t - Instant()) / Second) -
                          t0 + extra;
    if (kepler) {
      long double const e = this->e[k];
      long double const n = std::sqrt(static_cast<long double>(μ[k]));
      long double const M = n * τ;
      long double E = M;
      for (int i = 0; i < 50; ++i) {
        E = E - (E - e * std::sin(E) - M) / (1 - e * std::cos(E));
      }
      long double const c = std::cos(E);
      long double const s = std::sin(E);
      long double const q = std::sqrt(1 - e * e);
      long double const Eʹ = n / (1 - e * c);
      x = {c - e, q * s, 0};
      v = {-s * Eʹ, q * c * Eʹ, 0};
      return;
    }
    for (int i = 0; i < 3; ++i) {
      long double const a = amplitude[k][i];
      long double const w = ω[k][i];
      long double const θ = w * τ + φ[k][i];
      x[i] = a * std::sin(θ);
      v[i] = a * w * std::cos(θ);
    }
  }

  template<typename T>
  std::array<T, 3> Force(std::array<T, 3> const& x,
                         std::array<T, 3> const& v) const {
    std::array<T, 3> result;
    for (int i = 0; i < 3; ++i) {
      int const j = (i + 1) % 3;
      result[i] = -linear * x[i] - quadratic * x[i] * x[j] -
                  cubic * x[i] * x[i] * x[i] - damping * v[i] -
                  drag * v[i] * v[j] - drag * x[j] * v[i];
    }
    return result;
  }

  // The acceleration of point `k`.
  R3 Accelerate(Instant const& t, int const k, R3 const& x, R3 const& v) const {
    if (kepler) {
      long double const r² = x[0] * x[0] + x[1] * x[1] + x[2] * x[2];
      long double const f = -μ[k] / (r² * std::sqrt(r²));
      return {f * x[0], f * x[1], f * x[2]};
    }
    R3 xe, ve;
    Exact(t, 0, k, xe, ve);
    R3 const actual = Force(x, v);
    R3 const exact = Force(xe, ve);
    R3 result;
    for (int i = 0; i < 3; ++i) {
      result[i] = actual[i] - exact[i] - ω[k][i] * ω[k][i] * xe[i];
    }
    return result;
  }

  Instant start() const { return Instant() + t0 * Second; }

  template<typename ODE>
  typename ODE::State InitialState() const;

  // The largest error of the positions and velocities.
  template<typename State>
  double Error(State const& s) const;
};

A Acc(R3 const& a) {
  auto const u = Metre / (Second * Second);
  return A({static_cast<double>(a[0]) * u, static_cast<double>(a[1]) * u,
            static_cast<double>(a[2]) * u});
}
V Vel(R3 const& v) {
  auto const u = Metre / Second;
  return V({static_cast<double>(v[0]) * u, static_cast<double>(v[1]) * u,
            static_cast<double>(v[2]) * u});
}

template<typename ODE>
typename ODE::State Problem::InitialState() const {
  if constexpr (std::is_same_v<ODE, First>) {
    R3 x, v;
    Exact(start(), 0, 0, x, v);
    return {start(), {D(x), Vel(v)}};
  } else {
    std::vector<P> q;
    std::vector<V> w;
    for (int k = 0; k < n; ++k) {
      R3 x, v;
      Exact(start(), 0, k, x, v);
      q.push_back(World::origin + D(x));
      w.push_back(Vel(v));
    }
    return {start(), q, w};
  }
}

template<typename State>
double Problem::Error(State const& s) const {
  long double result = 0;
  auto const add = [&](DoublePrecision<Instant> const& t, int const k,
                       auto const& q, auto const& w) {
    R3 x, v;
    Exact(t.value, t.error / Second, k, x, v);
    R3 const xa = X(q.value);
    R3 const xe = X(q.error);
    R3 const va = X(w.value);
    R3 const ve = X(w.error);
    for (int i = 0; i < 3; ++i) {
      long double const δx = std::fabs(xa[i] + xe[i] - x[i]);
      long double const δv = std::fabs(va[i] + ve[i] - v[i]);
      result = δx >= 0 && δv >= 0 ? std::max({result, δx, δv}) : 1e300L;
    }
  };
  if constexpr (std::is_same_v<State, First::State>) {
    add(s.s, 0, get<0>(s.y), get<1>(s.y));
  } else {
    for (int k = 0; k < n; ++k) {
      add(s.time, k, s.positions[k], s.velocities[k]);
    }
  }
  return result;
}

// Counts the evaluations of an equation, and makes one of them fail.
struct Control {
  std::int64_t evaluations = 0;
  std::int64_t fail_at = std::numeric_limits<std::int64_t>::max();
  absl::StatusCode code = absl::StatusCode::kOk;

  absl::Status Next() {
    ++evaluations;
    return evaluations == fail_at ? absl::Status(code, "injected")
                                  : absl::OkStatus();
  }
};

template<typename ODE>
ODE Equation(Problem const& p, Control& c) {
  ODE result;
  if constexpr (std::is_same_v<ODE, First>) {
    result.compute_derivative = [&p, &c](
        Instant const& t, First::DependentVariables const& y,
        First::DependentVariableDerivatives& yʹ) {
      get<0>(yʹ) = get<1>(y);
      get<1>(yʹ) = Acc(p.Accelerate(t, 0, X(get<0>(y)), X(get<1>(y))));
      return c.Next();
    };
  } else if constexpr (std::is_same_v<ODE, General>) {
    result.compute_acceleration = [&p, &c](
        Instant const& t, std::vector<P> const& q, std::vector<V> const& v,
        std::vector<A>& a) {
      for (int k = 0; k < p.n; ++k) {
        a[k] = Acc(p.Accelerate(t, k, X(q[k]), X(v[k])));
      }
      return c.Next();
    };
  } else {
    result.compute_acceleration = [&p, &c](
        Instant const& t, std::vector<P> const& q, std::vector<A>& a) {
      for (int k = 0; k < p.n; ++k) {
        a[k] = Acc(p.Accelerate(t, k, X(q[k]), {}));
      }
      return c.Next();
    };
  }
  return result;
}

template<typename ODE>
DoublePrecision<Instant> const& TimeOf(typename ODE::State const& s) {
  if constexpr (std::is_same_v<ODE, First>) {
    return s.s;
  } else {
    return s.time;
  }
}

template<typename State>
std::string Show(State const& s) {
  if constexpr (std::is_same_v<State, First::State>) {
    return Str((s.s.value - Instant()) / Second, "+", s.s.error / Second);
  } else {
    return Str((s.time.value - Instant()) / Second, "+",
               s.time.error / Second);
  }
}

template<typename ODE>
using Trace = std::vector<typename ODE::State>;

template<typename ODE>
struct Fixed {
  std::string name;
  int order;
  bool multistep;
  // Going back with the opposite step returns to the initial state.
  bool reversible;
  // True if a restart may change the rounding.
  bool fsal;
  FixedStepSizeIntegrator<ODE> const* integrator;
};

template<typename ODE>
struct Adaptive {
  std::string name;
  int higher_order;
  int lower_order;
  int stages;
  AdaptiveStepSizeIntegrator<ODE> const* integrator;
};

std::vector<Fixed<Special>> AllSpecial() {
  std::vector<Fixed<Special>> result;
#define SRKN(M)                                                      \
  result.push_back({#M, methods::M::order, false,                    \
                    methods::M::time_reversible,                     \
                    methods::M::composition ==                       \
                        serialization::FixedStepSizeIntegrator::BAB, \
                    &SymplecticRungeKuttaNyströmIntegrator<          \
                        methods::M, Special>()})
#define SPRK(M, C)                                                          \
  result.push_back({#M "/" #C, methods::M::order, false,                    \
                    methods::M::time_reversible,                            \
                    serialization::FixedStepSizeIntegrator::C ==            \
                        serialization::FixedStepSizeIntegrator::BAB,        \
                    &SymplecticRungeKuttaNyströmIntegrator<                 \
                        methods::M,                                         \
                        serialization::FixedStepSizeIntegrator::C,          \
                        Special>()})
#define BOTH(M) SPRK(M, ABA); SPRK(M, BAB)
#define SLMS(M)                                                        \
  result.push_back({#M, methods::M::order, true, false, false,         \
                    &SymmetricLinearMultistepIntegrator<methods::M,    \
                                                        Special>()})
  SRKN(BlanesMoan2002SRKN6B);
  SRKN(BlanesMoan2002SRKN11B);
  SRKN(BlanesMoan2002SRKN14A);
  SRKN(McLachlan1995SB3A4);
  SRKN(McLachlan1995SB3A5);
  SRKN(McLachlanAtela1992Order4Optimal);
  SRKN(McLachlanAtela1992Order5Optimal);
  SRKN(OkunborSkeel1994Order6Method13);
  BOTH(BlanesMoan2002S6);
  BOTH(BlanesMoan2002S10);
  BOTH(CandyRozmus1991ForestRuth1990);
  BOTH(McLachlan1995S2);
  BOTH(McLachlan1995S4);
  BOTH(McLachlan1995S5);
  BOTH(McLachlan1995SS5);
  BOTH(McLachlan1995SS9);
  BOTH(McLachlan1995SS15);
  BOTH(McLachlan1995SS17);
  SPRK(McLachlanAtela1992Order2Optimal, BA);
  SPRK(McLachlanAtela1992Order3Optimal, BA);
  BOTH(NewtonDelambreStørmerVerletLeapfrog);
  SPRK(Ruth1983, BA);
  BOTH(鈴木1990);
  BOTH(吉田1990Order6A);
  BOTH(吉田1990Order6B);
  BOTH(吉田1990Order6C);
  BOTH(吉田1990Order8A);
  BOTH(吉田1990Order8B);
  BOTH(吉田1990Order8C);
  BOTH(吉田1990Order8D);
  BOTH(吉田1990Order8E);
  SLMS(Quinlan1999Order8A);
  SLMS(Quinlan1999Order8B);
  SLMS(QuinlanTremaine1990Order8);
  SLMS(QuinlanTremaine1990Order10);
  SLMS(QuinlanTremaine1990Order12);
  SLMS(QuinlanTremaine1990Order14);
  return result;
}

std::vector<Fixed<First>> AllFirst() {
  std::vector<Fixed<First>> result;
#define ELMS(M)                                                       \
  result.push_back({#M, methods::M::order, true, false, false,        \
                    &ExplicitLinearMultistepIntegrator<methods::M,    \
                                                       First>()})
  ELMS(AdamsBashforthOrder2);
  ELMS(AdamsBashforthOrder3);
  ELMS(AdamsBashforthOrder4);
  ELMS(AdamsBashforthOrder5);
  ELMS(AdamsBashforthOrder6);
  result.push_back({"Kutta1901Vσ1", methods::Kutta1901Vσ1::order, false, false,
                    methods::Kutta1901Vσ1::first_same_as_last,
                    &ExplicitRungeKuttaIntegrator<methods::Kutta1901Vσ1,
                                                  First>()});
  return result;
}

Adaptive<Special> AdaptiveSpecial() {
  using M = methods::DormandالمكاوىPrince1986RKN434FM;
  return {"DormandالمكاوىPrince1986RKN434FM", M::higher_order, M::lower_order,
          M::stages,
          &EmbeddedExplicitRungeKuttaNyströmIntegrator<M, Special>()};
}
Adaptive<General> AdaptiveGeneral(bool const fine45) {
  using M45 = methods::Fine1987RKNG45;
  using M34 = methods::Fine1987RKNG34;
  if (fine45) {
    return {"Fine1987RKNG45", M45::higher_order, M45::lower_order, M45::stages,
            &EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<M45,
                                                                    General>()};
  }
  return {"Fine1987RKNG34", M34::higher_order, M34::lower_order, M34::stages,
          &EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<M34,
                                                                  General>()};
}
Adaptive<First> AdaptiveFirst() {
  using M = methods::DormandPrince1986RK547FC;
  return {"DormandPrince1986RK547FC", M::higher_order, M::lower_order,
          M::stages, &EmbeddedExplicitRungeKuttaIntegrator<M, First>()};
}

// Checks that the errors, for steps h, h/2, h/4..., decrease with the given
// order, down to the rounding errors.
void CheckOrder(std::string const& name, std::vector<double> const& errors,
                int const order, double const slack, double const floor) {
  double slope = -1;
  double best = 1e300;
  int at = -1;
  for (std::size_t k = 0; k < errors.size(); ++k) {
    best = std::min(best, errors[k]);
    if (k + 1 < errors.size() && errors[k + 1] > 10 * floor &&
        errors[k] < 0.1) {
      slope = std::log2(errors[k] / errors[k + 1]);
      at = k;
    }
  }
  std::string all;
  for (double const e : errors) all += Str(" ", e);
  if (at < 0) {
    Count("orders not measured");
  } else {
    Count("orders measured");
    Max(Str("lack of order ", name), order - slope);
    VERIF(slope > order - slack, Str("order:", name),
          Str("measured ", slope, " instead of ", order, ":", all));
  }
  Max(Str("best error ", name), best);
  VERIF(best < floor, Str("order:error:", name), Str(best, ":", all));
}

template<typename ODE>
void FixedOrder(Fixed<ODE> const& f, Rng& r) {
  SetCase(Str("order ", f.name));
  constexpr int problems = 3;
  std::vector<double> errors;
  std::vector<Problem> ps;
  for (int i = 0; i < problems; ++i) {
    ps.push_back(Problem::Random(r, std::is_same_v<ODE, First>));
  }
  double const T = Uniform(r, 5, 6);
  int const most = f.order <= 3 ? 14 : f.order <= 5 ? 12 : 11;
  double const floor = f.order == 1   ? 1e-3
                       : f.order == 2 ? 3e-6
                       : f.order == 3 ? 1e-9
                       : f.order == 4 ? 1e-9
                       : f.order == 5 ? 1e-11
                       : f.order == 6 ? 1e-11
                                      : 1e-12;
  for (int k = 3; k <= most; ++k) {
    std::int64_t const steps = std::int64_t{1} << k;
    if (f.multistep && steps < 2 * f.order + 4) continue;
    double error = 0;
    for (auto const& p : ps) {
      Control c;
      double const h = T / steps;
      double e = 0;
      auto const instance = f.integrator->NewInstance(
          {Equation<ODE>(p, c), p.InitialState<ODE>()},
          [&](typename ODE::State const& s) { e = std::max(e, p.Error(s)); },
          h * Second);
      auto const status =
          instance->Solve(p.start() + (steps + 0.5) * h * Second);
      VERIF(status.ok(), "order:status", status.ToString());
      Count("evaluations of the equations", c.evaluations);
      error += e;
    }
    errors.push_back(error);
    if (error < floor / 10) break;
  }
  // The multistep methods have large constants, and reach their order late.
  // The highest ones are accurate to the last digits as soon as they converge.
  double const slack = !f.multistep      ? 0.7
                       : f.order >= 12 ? 100
                                       : 0.5 + 0.2 * f.order;
  CheckOrder(f.name, errors, f.order, slack, floor);
  Case(Str(f.name, errors.front()));
}

template<typename ODE>
void AdaptiveOrder(Adaptive<ODE> const& f, Rng& r) {
  SetCase(Str("order ", f.name));
  std::vector<Problem> ps;
  for (int i = 0; i < 3; ++i) {
    ps.push_back(Problem::Random(r, !std::is_same_v<ODE, Special>));
  }
  double const T = Uniform(r, 2, 6);
  double const safety = Uniform(r, 0.3, 0.99);
  // The ratio that keeps the step unchanged.
  double const ratio = std::pow(safety, -(f.lower_order + 1));
  std::vector<double> errors;
  std::vector<double> estimates;
  for (int k = 3; k <= 11; ++k) {
    std::int64_t const steps = std::int64_t{1} << k;
    double error = 0;
    double estimate = 0;
    for (auto const& p : ps) {
      Control c;
      double const h = T / steps;
      double e = 0;
      auto const instance = f.integrator->NewInstance(
          {Equation<ODE>(p, c), p.InitialState<ODE>()},
          [&](typename ODE::State const& s) { e = std::max(e, p.Error(s)); },
          [&](Time const& step, typename ODE::State const& s,
              typename ODE::State::Error const& error) {
            if constexpr (std::is_same_v<ODE, First>) {
              for (auto const x : X(get<0>(error))) {
                estimate += std::fabs(x);
              }
              for (auto const x : X(get<1>(error))) {
                estimate += std::fabs(x);
              }
            } else {
              for (auto const& d : error.position_error) {
                for (auto const x : X(d)) {
                  estimate += std::fabs(x);
                }
              }
              for (auto const& d : error.velocity_error) {
                for (auto const x : X(d)) {
                  estimate += std::fabs(x);
                }
              }
            }
            return ratio;
          },
          {h * Second, safety});
      auto const status = instance->Solve(p.start() + T * Second);
      VERIF(status.ok(), "order:status", status.ToString());
      Count("evaluations of the equations", c.evaluations);
      error += e;
    }
    errors.push_back(error);
    estimates.push_back(estimate);
  }
  // The sum of the estimates is like the error of the lower order.
  CheckOrder(f.name, errors, f.higher_order, 0.7, 1e-8);
  CheckOrder(f.name + " estimate", estimates, f.lower_order, 0.7, 1e-6);
  Case(Str(f.name, errors.front()));
}

void Orders() {
  Rng r = MakeRng("orders");
  for (std::int64_t n = 0; n < N(2); ++n) {
    for (auto const& f : AllSpecial()) FixedOrder(f, r);
    for (auto const& f : AllFirst()) FixedOrder(f, r);
    AdaptiveOrder(AdaptiveSpecial(), r);
    AdaptiveOrder(AdaptiveGeneral(true), r);
    AdaptiveOrder(AdaptiveGeneral(false), r);
    AdaptiveOrder(AdaptiveFirst(), r);
  }
}

template<typename ODE>
double Distance(typename ODE::State const& a, typename ODE::State const& b) {
  long double result = 0;
  auto const add = [&](auto const& x, auto const& y) {
    R3 const x1 = X(x.value);
    R3 const y1 = X(y.value);
    for (int i = 0; i < 3; ++i) {
      result = std::max(result, std::fabs(x1[i] - y1[i]));
    }
  };
  if constexpr (std::is_same_v<ODE, First>) {
    add(get<0>(a.y), get<0>(b.y));
    add(get<1>(a.y), get<1>(b.y));
  } else {
    for (std::size_t k = 0; k < a.positions.size(); ++k) {
      add(a.positions[k], b.positions[k]);
      add(a.velocities[k], b.velocities[k]);
    }
  }
  return result;
}

// An integration in several calls, with copies and serializations of the
// instance, does the same thing as an integration in one call.
template<typename ODE>
void FixedHistory(Fixed<ODE> const& f, Rng& r, std::int64_t const n) {
  SetCase(Str("history ", f.name, " #", n));
  Problem p = Problem::Random(r, std::is_same_v<ODE, First>);
  bool const dyadic = Chance(r, 0.5);
  if (dyadic) p.t0 = std::floor(p.t0);
  std::int64_t const steps = Int(r, 4, 50);
  bool const backward = !f.multistep && Chance(r, 0.3);
  double const h =
      (backward ? -1 : 1) * (dyadic ? 1.0 / 32 : Uniform(r, 0.01, 0.1));
  // Where the integration is asked to end: exactly on a step, or after it.
  double const fraction = dyadic && Chance(r, 0.5) ? 0 : Uniform(r, 0.1, 0.9);
  auto const end = [&](std::int64_t const k) {
    return p.start() + (k + fraction) * h * Second;
  };
  using Instance = typename Integrator<ODE>::Instance;

  Control c0;
  Trace<ODE> reference;
  auto const whole = f.integrator->NewInstance(
      {Equation<ODE>(p, c0), p.InitialState<ODE>()},
      [&](typename ODE::State const& s) { reference.push_back(s); },
      h * Second);
  VERIF(whole->Solve(end(steps)).ok(), "history:status", f.name);
  VERIF(static_cast<std::int64_t>(reference.size()) == steps,
        Str("history:steps:", f.name), Str(reference.size(), " ", steps));
  for (std::size_t k = 0; k < reference.size(); ++k) {
    auto const& t = TimeOf<ODE>(reference[k]);
    long double const expected =
        static_cast<long double>(p.t0) + static_cast<long double>(h) * (k + 1);
    long double const actual =
        static_cast<long double>((t.value - Instant()) / Second) +
        static_cast<long double>(t.error / Second);
    // During the startup the steps are divided, and not exact.
    VERIF(std::fabs(actual - expected) <=
              (f.multistep ? 1e-15L : 1e-17L) * (1 + std::fabs(expected)),
          Str("history:times:", f.name),
          Str(k, " ", static_cast<double>(actual - expected)));
  }
  if (!f.multistep || steps > 16) {
    VERIF(whole->state() == reference.back(), "history:state", f.name);
  }

  Control c;
  Trace<ODE> trace;
  auto const append = [&](typename ODE::State const& s) {
    trace.push_back(s);
  };
  std::unique_ptr<Instance> instance = f.integrator->NewInstance(
      {Equation<ODE>(p, c), p.InitialState<ODE>()}, append, h * Second);
  // The number of steps that were done, and the instance.
  std::vector<std::pair<std::int64_t, std::unique_ptr<Instance>>> zombies;
  std::string ops;
  std::int64_t done = 0;
  while (done < steps) {
    int const op = Int(r, 0, 3);
    if (op <= 1) {
      std::int64_t const more = Int(r, 1, std::min<std::int64_t>(
                                              12, steps - done));
      done += more;
      VERIF(instance->Solve(end(done)).ok(), "history:status", f.name);
      VERIF(static_cast<std::int64_t>(trace.size()) == done,
            Str("history:steps:", f.name), Str(trace.size(), " ", done));
      ops += "s";
    } else if (op == 2) {
      std::unique_ptr<Instance> clone = instance->Clone();
      VERIF(clone->state() == instance->state(), "clone:state", f.name);
      if (Chance(r, 0.5)) {
        // The original must survive the use of its clone, and be independent.
        zombies.emplace_back(done, std::move(instance));
      }
      instance = std::move(clone);
      ops += "c";
    } else {
      if constexpr (!std::is_same_v<ODE, First>) {
        serialization::IntegratorInstance message;
        instance->WriteToMessage(&message);
        std::string const bytes = message.SerializeAsString();
        serialization::IntegratorInstance m2;
        HARNESS_CHECK(m2.ParseFromString(bytes));
        std::unique_ptr<Instance> read =
            FixedStepSizeIntegrator<ODE>::Instance::ReadFromMessage(
                m2, Equation<ODE>(p, c), append);
        VERIF(read->state() == instance->state(), "read:state", f.name);
        serialization::IntegratorInstance m3;
        read->WriteToMessage(&m3);
        VERIF(m3.SerializeAsString() == bytes, "read:bytes", f.name);
        if (Chance(r, 0.5)) zombies.emplace_back(done, std::move(instance));
        instance = std::move(read);
        ops += "r";
      }
    }
  }
  HARNESS_CHECK(trace.size() <= reference.size());
  for (std::size_t k = 0; k < trace.size(); ++k) {
    bool const same = trace[k] == reference[k];
    bool const close =
        same || (f.fsal && Distance<ODE>(trace[k], reference[k]) < 1e-11);
    VERIF(close, Str("history:state:", f.name),
          Str(ops, " at ", k, " of ", steps, ": ",
              Distance<ODE>(trace[k], reference[k])));
    if (!close) break;
  }
  Count("fixed steps", trace.size());
  Case(Str(f.name, ops));

  // The copies have not been changed by the rest of the integration.
  for (auto const& [at, zombie] : zombies) {
    typename ODE::State const& state = zombie->state();
    auto const same = [&](typename ODE::State const& s1,
                          typename ODE::State const& s2) {
      return f.fsal ? Distance<ODE>(s1, s2) < 1e-11 : s1 == s2;
    };
    // During the startup the state may be between two steps.
    if (at == 0) {
      VERIF(f.multistep || state == p.InitialState<ODE>(),
            Str("history:copy:", f.name), Show(state));
    } else if (!f.multistep || at > 16) {
      VERIF(same(state, reference[at - 1]), Str("history:copy:", f.name),
            Str(ops, " at ", at, " of ", steps));
    }
    if (at == steps) continue;
    std::size_t const before = trace.size();
    VERIF(zombie->Solve(end(at + 1)).ok(), "history:status", f.name);
    VERIF(trace.size() == before + 1, Str("history:copy:steps:", f.name),
          Str(trace.size() - before));
    if (trace.size() == before + 1) {
      VERIF(same(trace.back(), reference[at]),
            Str("history:copy:next:", f.name),
            Str(ops, " at ", at, " of ", steps));
    }
    Count("copies followed");
  }

  if (f.reversible && !reference.empty()) {
    Trace<ODE> back;
    auto const reverse = f.integrator->NewInstance(
        {Equation<ODE>(p, c), reference.back()},
        [&](typename ODE::State const& s) { back.push_back(s); },
        -h * Second);
    VERIF(reverse->Solve(p.start() - 0.5 * h * Second).ok(), "history:status",
          f.name);
    VERIF(static_cast<std::int64_t>(back.size()) == steps, "reversible:steps",
          Str(back.size(), " ", steps));
    double const error =
        Distance<ODE>(back.back(), p.InitialState<ODE>());
    Max("error after going back", error);
    VERIF(error < 1e-11, Str("reversible:", f.name), error);
  }
}

// The greatest coordinate of an error.
template<typename ODE>
double Largest(typename ODE::State::Error const& error) {
  long double result = 0;
  auto const add = [&](R3 const& x) {
    for (auto const c : x) {
      // A trial step may diverge.
      result = std::isfinite(c) ? std::max(result, std::fabs(c)) : 1e300L;
    }
  };
  if constexpr (std::is_same_v<ODE, First>) {
    add(X(get<0>(error)));
    add(X(get<1>(error)));
  } else {
    for (auto const& d : error.position_error) add(X(d));
    for (auto const& d : error.velocity_error) add(X(d));
  }
  return result;
}

// Follows the calls of an adaptive integrator and checks each of them.
template<typename ODE>
struct Monitor {
  using State = typename ODE::State;
  Problem const& p;
  double const safety;
  int const order;
  double const tolerance;
  bool const exact;
  // May be changed between integrations.
  std::optional<Instant> t_final;
  // The last state of the integrator.
  State current;
  // The step that must be tried next.
  Time next_step;
  bool fuzzy = false;  // True if `next_step` is only known approximately.

  bool tried = false;
  Time step;
  double ratio = 0;
  bool clipped = false;
  std::int64_t accepted = 0;
  std::int64_t rejected = 0;
  Trace<ODE> trace;

  double Ratio(Time const& h, State const& s,
               typename State::Error const& error) {
    VERIF(!tried || ratio < 1, "adaptive:not appended",
          Str(Show(s), " ", h / Second));
    VERIF(s == current, "adaptive:state at the start of the step",
          Str(Show(s), " ", Show(current)));
    Time const left = (*t_final - TimeOf<ODE>(current).value) -
                      TimeOf<ODE>(current).error;
    clipped = exact && Abs(h - left) <= 1e-15 * Abs(left);
    if (exact) {
      VERIF(Abs(h) <= Abs(left) * (1 + 1e-15), "adaptive:overshoot",
            Str(h / Second, " ", left / Second));
    }
    bool const as_expected = Abs(h - next_step) <= 1e-14 * Abs(next_step);
    VERIF(as_expected || (clipped && Abs(left) <= Abs(next_step) * (1 + 1e-14)),
          "adaptive:step",
          Str(h / Second, " instead of ", next_step / Second, " left ",
              left / Second));
    step = h;
    double const largest = Largest<ODE>(error);
    ratio = std::max(tolerance / std::max(largest, 1e-30), 1e-12);
    // What the integrator must compute.
    next_step = h * safety * std::pow(ratio, 1.0 / (order + 1));
    tried = true;
    if (ratio < 1) ++rejected;
    return ratio;
  }

  void Append(State const& s) {
    VERIF(tried && ratio >= 1, "adaptive:appended", Show(s));
    tried = false;
    auto const& before = TimeOf<ODE>(current);
    auto const& after = TimeOf<ODE>(s);
    auto const l = [](auto const& t) {
      return static_cast<long double>((t.value - Instant()) / Second) +
             static_cast<long double>(t.error / Second);
    };
    long double const δ = l(after) - l(before);
    VERIF(std::fabs(δ - step / Second) <=
              2e-19L * std::fabs(l(after)) +
                  1.2e-16L * std::fabs(step / Second),
          "adaptive:time", Str(static_cast<double>(δ), " ", step / Second));
    Time const beyond =
        (step > Time() ? 1 : -1) * (after.value - *t_final + after.error);
    VERIF(beyond <= 2e-16 * Abs(step), "adaptive:beyond",
          Str(Show(s), " by ", beyond / Second));
    current = s;
    trace.push_back(s);
    ++accepted;
  }
};

template<typename ODE>
void AdaptiveHistory(Adaptive<ODE> const& f, Rng& r, std::int64_t const n) {
  SetCase(Str("adaptive ", f.name, " #", n));
  Problem p = Problem::Random(r, !std::is_same_v<ODE, Special>);
  if (Chance(r, 0.2)) p.t0 = Uniform(r, -1e9, 1e9);
  bool const backward = Chance(r, 0.3);
  // The general problems are damped, don't let them diverge.
  double const T = (backward ? -1 : 1) * Uniform(r, 0.1, backward ? 3 : 10);
  double const first = T * (Chance(r, 0.2) ? Uniform(r, 1, 10)
                                           : std::exp(Uniform(r, std::log(1e-4), 0)));
  double const safety = Uniform(r, 0.2, 0.98);
  bool const exact = Chance(r, 0.5);
  bool const limited = Chance(r, 0.4);
  std::int64_t const max_steps =
      limited ? Int(r, 1, 12) : std::numeric_limits<std::int64_t>::max();
  double const tolerance = std::exp(Uniform(r, std::log(1e-9), std::log(1e-2)));
  Control c;
  Monitor<ODE> m{.p = p,
                 .safety = safety,
                 .order = f.lower_order,
                 .tolerance = tolerance,
                 .exact = exact};
  m.current = p.InitialState<ODE>();
  m.next_step = first * Second;
  auto const append = [&](typename ODE::State const& s) { m.Append(s); };
  auto const ratio = [&](Time const& h, typename ODE::State const& s,
                         typename ODE::State::Error const& e) {
    return m.Ratio(h, s, e);
  };
  using Instance = typename Integrator<ODE>::Instance;
  std::unique_ptr<Instance> instance = f.integrator->NewInstance(
      {Equation<ODE>(p, c), m.current}, append, ratio,
      {first * Second, safety, max_steps, exact});
  std::vector<std::unique_ptr<Instance>> zombies;

  // Several calls, unless the last step is exact.
  int const calls = exact ? 1 : Int(r, 1, 3);
  std::string ops;
  for (int call = 0; call < calls; ++call) {
    Instant const t_final =
        p.start() + (T * (call + 1) / calls) * Second;
    m.t_final = t_final;
    auto const reached = [&]() {
      return backward ? TimeOf<ODE>(m.current).value <= t_final
                      : TimeOf<ODE>(m.current).value >= t_final;
    };
    if (reached()) continue;
    for (int tries = 0;; ++tries) {
      std::int64_t const accepted_before = m.accepted;
      Watchdog w("adaptive:doesn't terminate", 60);
      absl::Status const status = instance->Solve(t_final);
      std::int64_t const accepted = m.accepted - accepted_before;
      VERIF(accepted <= max_steps, "adaptive:max steps",
            Str(accepted, " ", max_steps));
      if (status.ok()) {
        ops += "o";
        if (exact) {
          Time const missing = (t_final - TimeOf<ODE>(m.current).value) -
                               TimeOf<ODE>(m.current).error;
          // The instance keeps the state before the truncated step.
          VERIF(m.trace.size() < 2
                    ? instance->state() == p.InitialState<ODE>()
                    : instance->state() == m.trace[m.trace.size() - 2],
                "adaptive:restartable state", f.name);
          VERIF(Abs(missing) <= 2e-16 * Abs(m.step), "adaptive:end",
                Str(Show(m.current), " ", (t_final - Instant()) / Second));
        } else {
          // One more step would overshoot; it has been computed.
          VERIF(m.tried, "adaptive:stopped too early", "");
          Time const left = (t_final - TimeOf<ODE>(m.current).value) -
                            TimeOf<ODE>(m.current).error;
          VERIF(Abs(m.step) >= Abs(left) * (1 - 1e-14),
                "adaptive:stopped too early",
                Str(m.step / Second, " ", left / Second));
          // It is tried again by the next call.
          m.next_step = m.step;
          m.tried = false;
          VERIF(instance->state() == m.current, "adaptive:final state",
                f.name);
        }
        break;
      }
      VERIF(status.code() == termination_condition::ReachedMaximalStepCount,
            "adaptive:status",
            Str(status.ToString(), " step ", m.step / Second, " ratio ",
                m.ratio, " tried ", m.tried, " end ",
                (t_final - Instant()) / Second, exact ? " exact" : "",
                " accepted ", m.accepted, " rejected ", m.rejected,
                " safety ", safety, " tolerance ", tolerance));
      if (status.code() != termination_condition::ReachedMaximalStepCount) {
        return;
      }
      ops += "m";
      VERIF(accepted == max_steps, "adaptive:gave up too early",
            Str(accepted, " ", max_steps));
      VERIF(!reached(), "adaptive:gave up at the end", Show(m.current));
      VERIF(instance->state() == m.current, "adaptive:final state", f.name);
      if constexpr (!std::is_same_v<ODE, First>) {
        VERIF(instance->time() == TimeOf<ODE>(m.current),
              "adaptive:final time", f.name);
      }
      // The step is the last one, not the next.
      m.next_step = m.step;
      if (exact || tries > 300) {
        Case(Str(f.name, ops));
        return;
      }
      if (Chance(r, 0.3)) {
        std::unique_ptr<Instance> clone = instance->Clone();
        VERIF(clone->state() == instance->state(), "clone:state", f.name);
        if (Chance(r, 0.5)) {
          zombies.push_back(std::move(instance));
        }
        instance = std::move(clone);
        ops += "c";
      } else if constexpr (!std::is_same_v<ODE, First>) {
        if (Chance(r, 0.4)) {
          serialization::IntegratorInstance message;
          instance->WriteToMessage(&message);
          std::string const bytes = message.SerializeAsString();
          serialization::IntegratorInstance m2;
          HARNESS_CHECK(m2.ParseFromString(bytes));
          std::unique_ptr<Instance> read =
              AdaptiveStepSizeIntegrator<ODE>::Instance::ReadFromMessage(
                  m2, Equation<ODE>(p, c), append, ratio);
          VERIF(read->state() == instance->state(), "read:state", f.name);
          serialization::IntegratorInstance m3;
          read->WriteToMessage(&m3);
          VERIF(m3.SerializeAsString() == bytes, "read:bytes", f.name);
          instance = std::move(read);
          ops += "r";
        }
      }
    }
  }
  Case(Str(f.name, ops, backward, exact));
  Count("accepted steps", m.accepted);
  Count("rejected steps", m.rejected);
  // A coarse bound on the error: the number of steps, times the tolerance, and
  // some amplification.
  if (std::fabs(p.t0) < 1e3 && !backward) {
    double const error = p.Error(m.current);
    double const scaled = error / (tolerance * (m.accepted + 1) *
                                   std::exp(0.5 * std::fabs(T)));
    Max("error of adaptive steps / tolerance", scaled);
    VERIF(scaled < 1000, "adaptive:error", Str(error, " ", tolerance));
  }
}

// The errors of the equations, and vanishing steps.
template<typename ODE>
void AdaptiveErrors(Adaptive<ODE> const& f, Rng& r, std::int64_t const n) {
  SetCase(Str("adaptive errors ", f.name, " #", n));
  Problem const p = Problem::Random(r, !std::is_same_v<ODE, Special>);
  double const T = Uniform(r, 1, 5);
  if (Chance(r, 0.4)) {
    // The error is never acceptable after some steps.
    Control c;
    std::int64_t const good = Int(r, 0, 5);
    std::int64_t steps = 0;
    typename ODE::State last = p.InitialState<ODE>();
    auto const instance = f.integrator->NewInstance(
        {Equation<ODE>(p, c), last},
        [&](typename ODE::State const& s) {
          ++steps;
          last = s;
        },
        [&](Time const&, typename ODE::State const&,
            typename ODE::State::Error const&) {
          return steps < good ? 1.0 : 1e-3;
        },
        {T / 100 * Second, 0.9});
    Watchdog w("adaptive:doesn't terminate", 60);
    auto const status = instance->Solve(p.start() + T * Second);
    VERIF(status.code() == termination_condition::VanishingStepSize,
          "adaptive:vanishing", status.ToString());
    VERIF(steps == good, "adaptive:vanishing steps", Str(steps, " ", good));
    VERIF(instance->state() == last, "adaptive:vanishing state", f.name);
    Count("vanishing steps");
    return;
  }
  // The n-th evaluation returns an error.
  Control c;
  // The first evaluation may be used by all the trials of the first step.
  c.fail_at = Int(r, 2, 60);
  c.code = Chance(r, 0.5) ? absl::StatusCode::kOutOfRange
                          : absl::StatusCode::kInvalidArgument;
  std::int64_t before = 0;
  bool failed_accepted = false;
  bool failed_last = false;
  bool rejected = false;
  bool const exact = Chance(r, 0.5);
  std::int64_t steps = 0;
  typename ODE::State last;
  auto const instance = f.integrator->NewInstance(
      {Equation<ODE>(p, c), p.InitialState<ODE>()},
      [&](typename ODE::State const& s) {
        if (failed_last) failed_accepted = true;
        failed_last = false;
        ++steps;
        last = s;
      },
      [&](Time const&, typename ODE::State const&,
          typename ODE::State::Error const&) {
        bool const failed_now = before < c.fail_at && c.fail_at <= c.evaluations;
        before = c.evaluations;
        failed_last = failed_now;
        rejected = Chance(r, 0.3);
        if (rejected) {
          failed_last = false;
        }
        return rejected ? 0.5 : 8;
      },
      {T / 10 * Second, 0.9, std::numeric_limits<std::int64_t>::max(), exact});
  auto const status = instance->Solve(p.start() + T * Second);
  // The last step may be computed and dropped if it is not exact.
  if (failed_accepted) {
    VERIF(status.code() == c.code, "adaptive:failure lost", status.ToString());
    Count("failures reported");
  } else if (!failed_last) {
    VERIF(status.ok(), "adaptive:spurious failure", status.ToString());
    if (c.evaluations >= c.fail_at) Count("failures of rejected steps");
  }
  if (exact) {
    Time const missing =
        (p.start() + T * Second - TimeOf<ODE>(last).value) -
        TimeOf<ODE>(last).error;
    VERIF(Abs(missing) <= 2e-16 * T * Second, "adaptive:end", Show(last));
  }
}

template<typename ODE>
void FixedErrors(Fixed<ODE> const& f, Rng& r, std::int64_t const n) {
  SetCase(Str("fixed errors ", f.name, " #", n));
  Problem const p = Problem::Random(r, std::is_same_v<ODE, First>);
  Control c;
  std::int64_t const steps = Int(r, 30, 60);
  double const h = 0.03;
  // Past the startup of the multistep methods, which ignore the failures in
  // their `FillStepFromState`.
  std::int64_t startup = 0;
  {
    Control c1;
    std::int64_t k = 0;
    auto const instance = f.integrator->NewInstance(
        {Equation<ODE>(p, c1), p.InitialState<ODE>()},
        [&](auto const&) {
          if (++k == 16) startup = c1.evaluations;
        },
        h * Second);
    instance->Solve(p.start() + 20 * h * Second).IgnoreError();
    if (!f.multistep) startup = 0;
  }
  c.fail_at = startup + Int(r, 1, 30);
  bool const aborts = Chance(r, 0.5);
  c.code = aborts ? absl::StatusCode::kAborted : absl::StatusCode::kOutOfRange;
  std::int64_t k = 0;
  std::int64_t after = 0;
  auto const instance = f.integrator->NewInstance(
      {Equation<ODE>(p, c), p.InitialState<ODE>()},
      [&](auto const&) {
        ++k;
        if (c.evaluations >= c.fail_at) ++after;
      },
      h * Second);
  auto const status = instance->Solve(p.start() + (steps + 0.5) * h * Second);
  bool const failed = c.evaluations >= c.fail_at;
  if (failed) {
    VERIF(status.code() == c.code, Str("fixed:failure lost:", f.name),
          Str(status.ToString(), " at ", c.fail_at));
    Count("failures reported");
  } else {
    VERIF(status.ok(), "fixed:spurious failure", status.ToString());
  }
  if (failed && aborts) {
    VERIF(after <= 1, Str("fixed:continues after an abort:", f.name), after);
  } else {
    VERIF(k == steps, Str("fixed:stops:", f.name), Str(k, " ", steps));
  }
}

template<std::int64_t M, std::int64_t N_, typename ODE>
void Picard(Rng& r) {
  SetCase(Str("Picard ", M, " ", N_, " ", ODE::order));
  static ЧебышёвPicardIntegrator<methods::ЧебышёвPicard<M, N_>, ODE> const
      integrator;
  Problem const p = Problem::Random(r, true);
  bool const backward = Chance(r, 0.3);
  double const h = (backward ? -1 : 1) * Uniform(r, 0.1, 0.5);
  int const steps = Int(r, 1, 5);
  Control c;
  ЧебышёвPicardIterationParams<ODE> params{
      .max_iterations = 64,
      .stopping_criterion = [](typename ODE::State::Error const& e) {
        return Largest<ODE>(e) < 1e-13;
      }};
  std::vector<typename ODE::State> states;
  double error = 0;
  auto const instance = integrator.NewInstance(
      {Equation<ODE>(p, c), p.InitialState<ODE>()},
      [&](typename ODE::State const& s) {
        states.push_back(s);
        error = std::max(error, p.Error(s));
      },
      h * Second, params);
  auto const status = instance->Solve(p.start() + (steps - 0.5) * h * Second);
  VERIF(status.ok(), Str("picard:status:", M, ":", N_, ":", ODE::order),
        status.ToString());
  VERIF(static_cast<std::int64_t>(states.size()) == steps * (M + 1),
        "picard:nodes", Str(states.size(), " ", steps));
  for (std::size_t i = 0; i < states.size(); ++i) {
    double const node =
        0.5 - 0.5 * std::cos(std::acos(-1.0) * (i % (M + 1)) / M);
    double const t = p.t0 + (i / (M + 1) + node) * h;
    VERIF(std::fabs((TimeOf<ODE>(states[i]).value - Instant()) / Second - t) <
              1e-13 * (1 + std::fabs(p.t0)),
          "picard:times", Str(i, " ", Show(states[i]), " ", t));
  }
  VERIF(instance->state() == states.back(), "picard:state", "");
  Max(Str("error of Picard ", M, " ", N_, " ", ODE::order), error);
  // Interpolation of degree 12 or more over half a radian.
  VERIF(error < 1e-11, Str("picard:error:", M, ":", N_, ":", ODE::order),
        error);
  Case(Str(error));

  // No convergence.
  params.max_iterations = 2;
  std::int64_t const before = states.size();
  auto const hopeless = integrator.NewInstance(
      {Equation<ODE>(p, c), p.InitialState<ODE>()},
      [&](typename ODE::State const& s) { states.push_back(s); },
      h * Second, params);
  VERIF(!hopeless->Solve(p.start() + h * Second).ok(), "picard:converged", "");
  VERIF(static_cast<std::int64_t>(states.size()) == before,
        "picard:appended without convergence", "");
}

void Histories() {
  Rng r = MakeRng("histories");
  for (std::int64_t n = 0; n < N(20); ++n) {
    for (auto const& f : AllSpecial()) {
      FixedHistory(f, r, n);
      if (n % 4 == 0) FixedErrors(f, r, n);
    }
    for (auto const& f : AllFirst()) {
      FixedHistory(f, r, n);
      if (n % 4 == 0) FixedErrors(f, r, n);
    }
  }
}

void AdaptiveHistories() {
  Rng r = MakeRng("adaptive");
  for (std::int64_t n = 0; n < N(300); ++n) {
    AdaptiveHistory(AdaptiveSpecial(), r, n);
    AdaptiveHistory(AdaptiveGeneral(true), r, n);
    AdaptiveHistory(AdaptiveGeneral(false), r, n);
    AdaptiveHistory(AdaptiveFirst(), r, n);
    AdaptiveErrors(AdaptiveSpecial(), r, n);
    AdaptiveErrors(AdaptiveGeneral(true), r, n);
    AdaptiveErrors(AdaptiveGeneral(false), r, n);
    AdaptiveErrors(AdaptiveFirst(), r, n);
  }
}

void Picards() {
  Rng r = MakeRng("picard");
  for (std::int64_t n = 0; n < N(20); ++n) {
    Picard<16, 16, First>(r);
    Picard<32, 20, First>(r);
    Picard<16, 16, General>(r);
    Picard<24, 17, General>(r);
  }
}

void Body() {
  if (Selected("orders")) Orders();
  if (Selected("histories")) Histories();
  if (Selected("adaptive")) AdaptiveHistories();
  if (Selected("picard")) Picards();
}

}  // namespace

VERIF_MAIN(Body)
