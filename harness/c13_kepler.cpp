// C13: Keplerian orbits.
#include <absl/synchronization/mutex.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "numerics/elementary_functions.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/kepler_orbit.hpp"
#include "physics/massive_body.hpp"
#include "physics/massless_body.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/physics.pb.h"
#include "verif.hpp"

using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_body;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_kepler_orbit;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_massless_body;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace verif;

namespace {

using World = Frame<principia::serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    principia::serialization::Frame::TEST>;
using Elements = KeplerianElements<World>;
using Orbit = KeplerOrbit<World>;
using Real = long double;
using Vec = std::array<Real, 3>;

constexpr Real pi = 3.14159265358979323846264338327950288L;
constexpr Real ulp = 0x1p-53L;

Vec operator+(Vec const& a, Vec const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
Vec operator-(Vec const& a, Vec const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
Vec operator*(Real const k, Vec const& a) {
  return {k * a[0], k * a[1], k * a[2]};
}
Real Dot(Vec const& a, Vec const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
Real NormOf(Vec const& a) {
  return std::sqrt(Dot(a, a));
}
Vec Cross(Vec const& a, Vec const& b) {
  return {a[1] * b[2] - a[2] * b[1],
          a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}

// The elements of section I, in the order of the header.
enum Element {
  ECC, NU_INF, DELTA,
  A, ENERGY, C3, N_ELL, PERIOD, N_HYP, V_INF,
  B, IMPACT,
  SEMILATUS, MOMENTUM,
  R_PE,
  R_AP,
  ELEMENTS
};
char const* const names[ELEMENTS] = {
    "e", "asymptotic true anomaly", "turning angle", "a", "energy", "C3", "n",
    "period", "hyperbolic n", "excess velocity", "b", "impact parameter",
    "semilatus rectum", "angular momentum", "periapsis", "apoapsis"};
int const category[ELEMENTS] = {1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 3, 3, 4, 4, 5, 6};

bool EllipticOnly(int const x) {
  return x == N_ELL || x == PERIOD || x == B;
}
bool HyperbolicOnly(int const x) {
  return x == NU_INF || x == DELTA || x == N_HYP || x == V_INF || x == IMPACT;
}

// The definitions of the elements, as functions of the eccentricity and of the
// semilatus rectum.
Real Define(int const x, Real const e, Real const l, Real const mu) {
  Real const one_minus_e2 = (1 - e) * (1 + e);
  Real const a = l / one_minus_e2;
  switch (x) {
    case ECC: return e;
    case NU_INF: return std::acos(-1 / e);
    case DELTA: return 2 * std::asin(1 / e);
    case A: return a;
    case ENERGY: return -mu / (2 * a);
    case C3: return -mu / a;
    case N_ELL: return std::sqrt(mu / (a * a * a));
    case PERIOD: return 2 * pi * std::sqrt(a * a * a / mu);
    case N_HYP: return std::sqrt(-mu / (a * a * a));
    case V_INF: return std::sqrt(-mu / a);
    case B: return a * std::sqrt(one_minus_e2);
    case IMPACT: return -a * std::sqrt(-one_minus_e2);
    case SEMILATUS: return l;
    case MOMENTUM: return std::sqrt(mu * l);
    case R_PE: return l / (1 + e);
    case R_AP: return l / (1 - e);
  }
  std::abort();
}

void SetElement(Elements& k, int const x, double const v) {
  switch (x) {
    case ECC: k.eccentricity = v; break;
    case NU_INF: k.asymptotic_true_anomaly = v * Radian; break;
    case DELTA: k.turning_angle = v * Radian; break;
    case A: k.semimajor_axis = v * Metre; break;
    case ENERGY: k.specific_energy = v * (Metre * Metre / Second / Second);
      break;
    case C3: k.characteristic_energy = v * (Metre * Metre / Second / Second);
      break;
    case N_ELL: k.mean_motion = v * (Radian / Second); break;
    case PERIOD: k.period = v * Second; break;
    case N_HYP: k.hyperbolic_mean_motion = v * (Radian / Second); break;
    case V_INF: k.hyperbolic_excess_velocity = v * (Metre / Second); break;
    case B: k.semiminor_axis = v * Metre; break;
    case IMPACT: k.impact_parameter = v * Metre; break;
    case SEMILATUS: k.semilatus_rectum = v * Metre; break;
    case MOMENTUM: k.specific_angular_momentum =
                       v * (Metre * Metre * Radian / Second); break;
    case R_PE: k.periapsis_distance = v * Metre; break;
    case R_AP: k.apoapsis_distance = v * Metre; break;
  }
}

std::optional<double> GetElement(Elements const& k, int const x) {
  switch (x) {
    case ECC: if (k.eccentricity) { return *k.eccentricity; } break;
    case NU_INF: if (k.asymptotic_true_anomaly) {
      return *k.asymptotic_true_anomaly / Radian; } break;
    case DELTA: if (k.turning_angle) { return *k.turning_angle / Radian; }
      break;
    case A: if (k.semimajor_axis) { return *k.semimajor_axis / Metre; } break;
    case ENERGY: if (k.specific_energy) {
      return *k.specific_energy / (Metre * Metre / Second / Second); } break;
    case C3: if (k.characteristic_energy) {
      return *k.characteristic_energy / (Metre * Metre / Second / Second); }
      break;
    case N_ELL: if (k.mean_motion) {
      return *k.mean_motion / (Radian / Second); } break;
    case PERIOD: if (k.period) { return *k.period / Second; } break;
    case N_HYP: if (k.hyperbolic_mean_motion) {
      return *k.hyperbolic_mean_motion / (Radian / Second); } break;
    case V_INF: if (k.hyperbolic_excess_velocity) {
      return *k.hyperbolic_excess_velocity / (Metre / Second); } break;
    case B: if (k.semiminor_axis) { return *k.semiminor_axis / Metre; } break;
    case IMPACT: if (k.impact_parameter) {
      return *k.impact_parameter / Metre; } break;
    case SEMILATUS: if (k.semilatus_rectum) {
      return *k.semilatus_rectum / Metre; } break;
    case MOMENTUM: if (k.specific_angular_momentum) {
      return *k.specific_angular_momentum /
             (Metre * Metre * Radian / Second); } break;
    case R_PE: if (k.periapsis_distance) {
      return *k.periapsis_distance / Metre; } break;
    case R_AP: if (k.apoapsis_distance) {
      return *k.apoapsis_distance / Metre; } break;
  }
  return std::nullopt;
}

// The solution of the (elliptic or hyperbolic) Kepler equation, by Newton's
// method kept within a bracket.
Real SolveKepler(Real const e, Real const mean) {
  Real lower;
  Real upper;
  if (e < 1) {
    lower = mean - 1;
    upper = mean + 1;
  } else {
    Real const bound = std::asinh(std::abs(mean) / (e - 1)) + 1;
    lower = -bound;
    upper = bound;
  }
  Real x = e < 1 ? mean : std::asinh(mean / e);
  for (int i = 0; i < 300; ++i) {
    Real const f = e < 1 ? x - e * std::sin(x) - mean
                         : e * std::sinh(x) - x - mean;
    Real const d = e < 1 ? 1 - e * std::cos(x) : e * std::cosh(x) - 1;
    if (f == 0) {
      break;
    }
    (f > 0 ? upper : lower) = x;
    Real next = x - f / d;
    if (!(next > lower && next < upper)) {
      next = (lower + upper) / 2;
    }
    if (next == x) {
      break;
    }
    x = next;
  }
  return x;
}

Real MeanAnomaly(Real const e, Real const nu) {
  if (e < 1) {
    Real const E = 2 * std::atan2(std::sqrt(1 - e) * std::sin(nu / 2),
                                  std::sqrt(1 + e) * std::cos(nu / 2));
    return E - e * std::sin(E);
  } else {
    Real const H =
        2 * std::atanh(std::sqrt((e - 1) / (e + 1)) * std::tan(nu / 2));
    return e * std::sinh(H) - H;
  }
}

// The state on an orbit with the periapsis along `p` and the normal `w`.
void OrbitalState(Real const mu, Real const e, Real const l, Vec const& p,
                  Vec const& w, Real const mean, Vec& r, Vec& v) {
  Vec const q = Cross(w, p);
  Real const x = SolveKepler(e, mean);
  Real const a = std::abs(l / ((1 - e) * (1 + e)));
  Real const b = l / std::sqrt(std::abs((1 - e) * (1 + e)));
  Real const n = std::sqrt(mu / (a * a * a));
  if (e < 1) {
    Real const rate = n / (1 - e * std::cos(x));
    r = (a * (std::cos(x) - e)) * p + (b * std::sin(x)) * q;
    v = (-a * std::sin(x) * rate) * p + (b * std::cos(x) * rate) * q;
  } else {
    Real const rate = n / (e * std::cosh(x) - 1);
    r = (a * (e - std::cosh(x))) * p + (b * std::sinh(x)) * q;
    v = (-a * std::sinh(x) * rate) * p + (b * std::cosh(x) * rate) * q;
  }
}

void Axes(Real const i, Real const node, Real const argument, Vec& p, Vec& w) {
  p = {std::cos(node) * std::cos(argument) -
           std::sin(node) * std::sin(argument) * std::cos(i),
       std::sin(node) * std::cos(argument) +
           std::cos(node) * std::sin(argument) * std::cos(i),
       std::sin(argument) * std::sin(i)};
  w = {std::sin(node) * std::sin(i), -std::cos(node) * std::sin(i),
       std::cos(i)};
}

Vec ToVec(Displacement<World> const& r) {
  auto const c = r.coordinates();
  return {c.x / Metre, c.y / Metre, c.z / Metre};
}
Vec ToVec(Velocity<World> const& v) {
  auto const c = v.coordinates();
  return {c.x / (Metre / Second), c.y / (Metre / Second),
          c.z / (Metre / Second)};
}

double AngleDistance(Real const a, Real const b) {
  return static_cast<double>(std::abs(std::remainder(a - b, 2 * pi)));
}

// Compares the state given by an orbit to that of the model.  `slip` is the
// uncertainty on the mean anomaly.
void CheckState(Orbit const& orbit, Instant const& t, Real const mu,
                Real const e, Real const l, Vec const& p, Vec const& w,
                Real const mean, Real const slip, Real const extra,
                std::string const& what) {
  Vec r;
  Vec v;
  OrbitalState(mu, e, l, p, w, mean, r, v);
  RelativeDegreesOfFreedom<World> const s = orbit.StateVectors(t);
  Real const a = std::abs(l / ((1 - e) * (1 + e)));
  Real const n = std::sqrt(mu / (a * a * a));
  Real const nr = NormOf(r);
  Real const nv = NormOf(v);
  Real const condition =
      1 + (1 + e) * nr / l + 1 / std::abs(1 - e) + extra;
  Real const r_tolerance = slip * nv / n + ulp * nr * condition;
  Real const v_tolerance = slip * mu / (nr * nr) / n +
                           ulp * condition * (nv + mu / (nr * nv));
  double const r_error = static_cast<double>(
      NormOf(ToVec(s.displacement()) - r) / r_tolerance);
  double const v_error = static_cast<double>(
      NormOf(ToVec(s.velocity()) - v) / v_tolerance);
  std::string const kind = e < 1 ? " of an ellipse" : " of a hyperbola";
  Max(what + ": position error" + kind, r_error);
  Max(what + ": velocity error" + kind, v_error);
  VERIF(r_error < 256, what + ":position" + kind,
        r_error << " at M=" << static_cast<double>(mean) << ", "
                << static_cast<double>(NormOf(ToVec(s.displacement()) - r) /
                                       nr) << " of r");
  VERIF(v_error < 256, what + ":velocity" + kind,
        v_error << " at M=" << static_cast<double>(mean) << ", "
                << static_cast<double>(NormOf(ToVec(s.velocity()) - v) / nv)
                << " of v");
}

void CheckMessage(Elements const& k, std::string const& what) {
  principia::serialization::KeplerianElements message;
  k.WriteToMessage(&message);
  VERIF(message.has_eccentricity() == k.eccentricity.has_value() &&
            message.has_asymptotic_true_anomaly() ==
                k.asymptotic_true_anomaly.has_value() &&
            message.has_turning_angle() == k.turning_angle.has_value() &&
            message.has_semimajor_axis() == k.semimajor_axis.has_value() &&
            message.has_specific_energy() == k.specific_energy.has_value() &&
            message.has_characteristic_energy() ==
                k.characteristic_energy.has_value() &&
            message.has_mean_motion() == k.mean_motion.has_value() &&
            message.has_period() == k.period.has_value() &&
            message.has_hyperbolic_mean_motion() ==
                k.hyperbolic_mean_motion.has_value() &&
            message.has_hyperbolic_excess_velocity() ==
                k.hyperbolic_excess_velocity.has_value() &&
            message.has_semiminor_axis() == k.semiminor_axis.has_value() &&
            message.has_impact_parameter() == k.impact_parameter.has_value() &&
            message.has_semilatus_rectum() == k.semilatus_rectum.has_value() &&
            message.has_specific_angular_momentum() ==
                k.specific_angular_momentum.has_value() &&
            message.has_periapsis_distance() ==
                k.periapsis_distance.has_value() &&
            message.has_apoapsis_distance() ==
                k.apoapsis_distance.has_value() &&
            message.has_argument_of_periapsis() ==
                k.argument_of_periapsis.has_value() &&
            message.has_longitude_of_periapsis() ==
                k.longitude_of_periapsis.has_value() &&
            message.has_true_anomaly() == k.true_anomaly.has_value() &&
            message.has_mean_anomaly() == k.mean_anomaly.has_value() &&
            message.has_hyperbolic_mean_anomaly() ==
                k.hyperbolic_mean_anomaly.has_value(),
        "message:fields " + what, "");
}

double Log10Uniform(Rng& r, double const lo, double const hi) {
  return std::pow(10, Uniform(r, lo, hi));
}

double RandomEccentricity(Rng& r, bool const hyperbolic) {
  if (hyperbolic) {
    switch (Int(r, 0, 2)) {
      case 0: return 1 + Log10Uniform(r, -4, 0);
      case 1: return Uniform(r, 1.01, 5);
      default: return Log10Uniform(r, 0.5, 3);
    }
  }
  switch (Int(r, 0, 5)) {
    case 0: return Log10Uniform(r, -18, -1);
    case 1: return 1 - Log10Uniform(r, -4, 0);
    case 2: return Chance(r, 0.2) ? 0 : Log10Uniform(r, -3, -1);
    default: return Uniform(r, 0.001, 0.98);
  }
}

double RandomAngle(Rng& r) {
  switch (Int(r, 0, 7)) {
    case 0: return Int(r, -4, 4) * M_PI / 2;
    case 1: return Log10Uniform(r, -12, 0) * (Chance(r, 0.5) ? 1 : -1);
    case 2: return M_PI + Log10Uniform(r, -12, 0) * (Chance(r, 0.5) ? 1 : -1);
    default: return Uniform(r, -2 * M_PI, 2 * M_PI);
  }
}

struct Bodies {
  std::unique_ptr<MassiveBody> primary;
  std::unique_ptr<Body> secondary;
  Real mu;
};

Bodies RandomBodies(Rng& r) {
  Bodies b;
  double const mu1 = Log10Uniform(r, 5, 20);
  auto const unit = Metre * Metre * Metre / (Second * Second);
  b.primary = std::make_unique<MassiveBody>(mu1 * unit);
  if (Chance(r, 0.3)) {
    double const mu2 = mu1 * Log10Uniform(r, -6, 0);
    b.secondary = std::make_unique<MassiveBody>(mu2 * unit);
    b.mu = static_cast<double>(mu1 + mu2);
  } else {
    b.secondary = std::make_unique<MasslessBody>();
    b.mu = mu1;
  }
  return b;
}

void ElementsCase(Rng& r) {
  Bodies const bodies = RandomBodies(r);
  Real const mu = bodies.mu;
  bool const hyperbolic = Chance(r, 0.4);
  Real const e = RandomEccentricity(r, hyperbolic);
  Real const l = Log10Uniform(r, 3, 12);

  // Two elements of different categories.
  int x;
  int y;
  do {
    x = Int(r, 0, ELEMENTS - 1);
    y = Int(r, 0, ELEMENTS - 1);
  } while (x >= y || category[x] == category[y] ||
           (hyperbolic ? EllipticOnly(x) || EllipticOnly(y)
                       : HyperbolicOnly(x) || HyperbolicOnly(y)) ||
           (x != ECC && e < 1e-3));
  double const given_x = Define(x, e, l, mu);
  double const given_y = Define(y, e, l, mu);

  // The sensitivity of all the elements to the two that are given.
  auto const derivative = [&](int const z, bool const to_l) {
    Real const h = to_l ? l * 1e-9L : std::min(1e-9L, std::abs(1 - e) * 1e-5L);
    if (to_l) {
      return (Define(z, e, l + h, mu) - Define(z, e, l - h, mu)) / (2 * h);
    } else if (e < h) {
      return (Define(z, e + h, l, mu) - Define(z, e, l, mu)) / h;
    } else {
      return (Define(z, e + h, l, mu) - Define(z, e - h, l, mu)) / (2 * h);
    }
  };
  Real const xe = derivative(x, false);
  Real const xl = derivative(x, true);
  Real const ye = derivative(y, false);
  Real const yl = derivative(y, true);
  Real const determinant = xe * yl - xl * ye;
  auto const sensitivity = [&](int const z) {
    Real const ze = derivative(z, false);
    Real const zl = derivative(z, true);
    Real const dx = (ze * yl - zl * ye) / determinant;
    Real const dy = (zl * xe - ze * xl) / determinant;
    return std::abs(dx * given_x) + std::abs(dy * given_y);
  };

  Elements given;
  SetElement(given, x, given_x);
  SetElement(given, y, given_y);
  double const inclination = Chance(r, 0.2) ? Int(r, 0, 2) * M_PI / 2
                                            : Uniform(r, 0, M_PI);
  double const node = RandomAngle(r);
  double const periapsis = RandomAngle(r);
  given.inclination = inclination * Radian;
  given.longitude_of_ascending_node = node * Radian;
  bool const longitude = Chance(r, 0.5);
  (longitude ? given.longitude_of_periapsis : given.argument_of_periapsis) =
      periapsis * Radian;
  Real const argument = longitude ? static_cast<Real>(periapsis) - node
                                  : static_cast<Real>(periapsis);

  // The anomaly.
  int const which = Int(r, 0, 1);
  double anomaly;
  Real mean;
  std::string anomaly_name;
  if (which == 0) {
    anomaly_name = "true anomaly";
    if (hyperbolic) {
      double const limit =
          std::acos(-1 / e) * (Chance(r, 0.1) ? 0.9999 : 0.98);
      anomaly = Chance(r, 0.2)
                    ? Log10Uniform(r, -12, -1) * (Chance(r, 0.5) ? 1 : -1)
                    : Uniform(r, -limit, limit);
      if (Chance(r, 0.2)) {
        anomaly = 0;
      } else if (Chance(r, 0.3)) {
        anomaly += 2 * M_PI;
      }
    } else {
      anomaly = RandomAngle(r);
    }
    given.true_anomaly = anomaly * Radian;
    mean = MeanAnomaly(e, anomaly);
  } else {
    anomaly_name = "mean anomaly";
    if (hyperbolic) {
      anomaly = Chance(r, 0.1)
                    ? 0
                    : Log10Uniform(r, -10, 4) * (Chance(r, 0.5) ? 1 : -1);
      given.hyperbolic_mean_anomaly = anomaly * Radian;
    } else {
      anomaly = Chance(r, 0.1) ? RandomAngle(r) * 100 : RandomAngle(r);
      given.mean_anomaly = anomaly * Radian;
    }
    mean = anomaly;
  }
  std::string const description =
      Str(names[x]) + "=" + Str(given_x) + " " + names[y] + "=" +
      Str(given_y) + " e=" + Str(static_cast<double>(e)) + " l=" +
      Str(static_cast<double>(l)) + " mu=" + Str(static_cast<double>(mu)) +
      " i=" + Str(inclination) + " node=" + Str(node) + " " +
      (longitude ? "longitude" : "argument") + "=" + Str(periapsis) + " " +
      anomaly_name + "=" + Str(anomaly);
  SetCase("elements " + description);
  Case(description);
  Watchdog const watchdog("elements:endless", 60);
  Instant const epoch = Instant() + Uniform(r, -1e9, 1e9) * Second;
  std::string const kind = hyperbolic ? "hyperbola" : "ellipse";
  Count("orbits: " + kind, 1);
  CheckMessage(given, "given");
  std::optional<Orbit> orbit;
  try {
    orbit.emplace(*bodies.primary, *bodies.secondary, given, epoch);
  } catch (...) {
    Fail("elements:fatal " + kind + " from " + anomaly_name, description);
    return;
  }
  Elements const& k = orbit->elements_at_epoch();
  CheckMessage(k, "completed");
  for (int z = 0; z < ELEMENTS; ++z) {
    auto const value = GetElement(k, z);
    if (!value) {
      VERIF(false, std::string("elements:missing ") + names[z], "");
      continue;
    }
    if (hyperbolic ? EllipticOnly(z) : HyperbolicOnly(z)) {
      VERIF(std::isnan(*value),
            std::string("elements:not NaN ") + names[z] + " of " + kind,
            *value);
      continue;
    }
    Real const expected = Define(z, e, l, mu);
    // The formulæ are not always as well conditioned as the problem.
    Real tolerance = ulp * (sensitivity(z) +
                            std::abs(expected) * (1 + 1 / std::abs(1 - e)));
    // The eccentricity may be obtained from 1 ± e.
    Real const through_e = sensitivity(ECC) + 1 + e;
    tolerance += ulp * std::abs(derivative(z, false)) * through_e;
    double const error =
        static_cast<double>(std::abs(*value - expected) / tolerance);
    Max(std::string("elements: error of ") + names[z], error);
    VERIF(error < 64,
          std::string("elements:wrong ") + names[z] + " from " + names[x] +
              " and " + names[y] + " of " + kind,
          *value << " for " << static_cast<double>(expected) << ", " << error);
  }
  VERIF(k.inclination == given.inclination &&
            k.longitude_of_ascending_node ==
                given.longitude_of_ascending_node,
        "elements:orientation", "");
  VERIF(k.argument_of_periapsis && k.longitude_of_periapsis &&
            AngleDistance(*k.argument_of_periapsis / Radian, argument) < 1e-14 &&
            AngleDistance(*k.longitude_of_periapsis / Radian, argument + node) <
                1e-14,
        "elements:periapsis", "");
  if (!k.true_anomaly || !k.mean_anomaly || !k.hyperbolic_mean_anomaly) {
    VERIF(false, "elements:missing anomalies", "");
    return;
  }
  Real const actual_e = *k.eccentricity;
  Real const actual_l = *k.semilatus_rectum / Metre;
  Real const a = std::abs(actual_l / ((1 - actual_e) * (1 + actual_e)));
  Real const n = std::sqrt(mu / (a * a * a));
  // The uncertainty on the mean anomaly.
  Real slip = ulp * (1 + std::abs(mean));
  if (which == 0) {
    // Of the eccentricity and of the anomaly, which is reduced modulo 2π.
    Real const h = 1e-9L * std::abs(1 - e);
    Real const limit = std::acos(-1 / std::max<Real>(e, 1));
    slip = ulp * (std::abs(mean) +
                  std::abs(MeanAnomaly(e + h, anomaly) -
                           MeanAnomaly(e, anomaly)) / h * (1 + e) *
                      (1 + 1 / std::abs(1 - e)) +
                  std::abs(MeanAnomaly(e, anomaly + h) -
                           MeanAnomaly(e, anomaly)) / h *
                      (1 + std::abs(anomaly)));
    (void)limit;
    // The cancellation in 1 + e cos ν.
    Real const d = std::abs(1 + e * std::cos(static_cast<Real>(anomaly)));
    slip += ulp * (1 + e) * (1 + std::abs(mean)) / d;
    mean = MeanAnomaly(actual_e, anomaly);
  }
  if (hyperbolic) {
    VERIF(std::isnan(*k.mean_anomaly / Radian),
          "elements:not NaN mean anomaly of " + kind, "");
    double const error = static_cast<double>(
        std::abs(*k.hyperbolic_mean_anomaly / Radian - mean) / slip);
    Max("elements: error of hyperbolic mean anomaly", error);
    VERIF(error < 64, "elements:wrong hyperbolic mean anomaly",
          *k.hyperbolic_mean_anomaly << " for " << static_cast<double>(mean));
  } else {
    VERIF(std::isnan(*k.hyperbolic_mean_anomaly / Radian),
          "elements:not NaN hyperbolic mean anomaly of " + kind, "");
    double const error = static_cast<double>(
        AngleDistance(*k.mean_anomaly / Radian, mean) / slip);
    Max("elements: error of mean anomaly", error);
    VERIF(error < 64, "elements:wrong mean anomaly",
          *k.mean_anomaly << " for " << static_cast<double>(mean));
  }
  Vec p;
  Vec w;
  Axes(inclination, node, argument, p, w);
  Real const angles = std::abs(node) + std::abs(argument) + 4;
  for (int j = 0; j < 4; ++j) {
    double const mean_change =
        j == 0 ? 0
               : hyperbolic
                     ? Log10Uniform(r, -3, 5) * (Chance(r, 0.5) ? 1 : -1)
                     : Uniform(r, -1, 1) * std::pow(10, Int(r, 0, 4));
    double const delta = mean_change / n;
    Instant const t = epoch + delta * Second;
    double const actual_delta = (t - epoch) / Second;
    try {
      CheckState(*orbit, t, mu, actual_e, actual_l, p, w,
                 mean + n * actual_delta,
                 slip + ulp * std::abs(n * actual_delta) *
                            (2 + 1 / std::abs(1 - e)),
                 angles, "elements");
    } catch (...) {
      Fail("elements:fatal state of " + kind,
           description + " at " + Str(actual_delta));
    }
    Count("states", 1);
  }
}

void StatesCase(Rng& r) {
  Bodies const bodies = RandomBodies(r);
  Real const mu = bodies.mu;
  double const radius = Log10Uniform(r, 3, 12);
  double const circular = std::sqrt(static_cast<double>(mu) / radius);
  std::array<double, 3> position;
  std::array<double, 3> velocity;
  std::string shape;
  auto const random_vector = [&](double const norm) {
    std::normal_distribution<double> d;
    std::array<double, 3> v = {d(r), d(r), d(r)};
    double const n = std::hypot(v[0], v[1], v[2]);
    for (double& c : v) {
      c *= norm / n;
    }
    return v;
  };
  switch (Int(r, 0, 4)) {
    case 0:
    case 1: {
      shape = "general";
      position = random_vector(radius);
      velocity = random_vector(circular * (Chance(r, 0.5)
                                               ? Uniform(r, 0.3, 1.38)
                                               : Uniform(r, 1.45, 5)));
      break;
    }
    case 2: {
      shape = "equatorial";
      double const ang = RandomAngle(r);
      double const flight = Uniform(r, 0.1, M_PI - 0.1);
      double const speed = circular * (Chance(r, 0.6)
                                           ? Uniform(r, 0.3, 1.38)
                                           : Uniform(r, 1.45, 5));
      double const sign = Chance(r, 0.5) ? 1 : -1;
      position = {radius * std::cos(ang), radius * std::sin(ang), 0};
      velocity = {speed * std::cos(ang + sign * flight),
                  speed * std::sin(ang + sign * flight), 0};
      if (Chance(r, 0.3)) {
        shape = "nearly equatorial";
        velocity[2] = speed * Log10Uniform(r, -18, -6);
      }
      break;
    }
    case 3: {
      shape = "nearly circular";
      position = random_vector(radius);
      auto const other = random_vector(1);
      Vec const d =
          Cross({position[0], position[1], position[2]},
                {other[0], other[1], other[2]});
      for (int i = 0; i < 3; ++i) {
        velocity[i] = d[i] / NormOf(d) * circular;
      }
      if (Chance(r, 0.5)) {
        auto const change = random_vector(circular * Log10Uniform(r, -18, -2));
        for (int i = 0; i < 3; ++i) {
          velocity[i] += change[i];
        }
      }
      break;
    }
    default: {
      shape = "axes";
      // Along axes, so that the nodes or apsides are on them.
      int const c = Int(r, 0, 2);
      int const d = (c + Int(r, 1, 2)) % 3;
      position = {0, 0, 0};
      velocity = {0, 0, 0};
      position[c] = radius * (Chance(r, 0.5) ? 1 : -1);
      velocity[d] = circular * (Chance(r, 0.6) ? Uniform(r, 0.3, 1.38)
                                               : Uniform(r, 1.45, 5)) *
                    (Chance(r, 0.5) ? 1 : -1);
      break;
    }
  }
  Vec const q = {position[0], position[1], position[2]};
  Vec const v = {velocity[0], velocity[1], velocity[2]};
  Vec const h = Cross(q, v);
  Real const nq = NormOf(q);
  Vec const ev = (1 / mu) * Cross(v, h) - (1 / nq) * q;
  Real const e = NormOf(ev);
  Real const sine = NormOf(h) / (nq * NormOf(v));
  if (std::abs(1 - e) < 1e-3 || sine < 0.01) {
    return;
  }
  bool const hyperbolic = e > 1;
  std::string const kind = hyperbolic ? "hyperbola" : "ellipse";
  std::string description = shape + " mu=" + Str(static_cast<double>(mu));
  for (double const c : position) {
    description += " " + Str(c);
  }
  description += ";";
  for (double const c : velocity) {
    description += " " + Str(c);
  }
  SetCase("states " + description);
  Case(description);
  Watchdog const watchdog("states:endless", 60);
  Count("states: " + shape + " " + kind, 1);
  Instant const epoch = Instant() + Uniform(r, -1e9, 1e9) * Second;
  auto const m_s = Metre / Second;
  RelativeDegreesOfFreedom<World> const given(
      Displacement<World>({position[0] * Metre, position[1] * Metre,
                           position[2] * Metre}),
      Velocity<World>({velocity[0] * m_s, velocity[1] * m_s,
                       velocity[2] * m_s}));
  std::optional<Orbit> orbit;
  try {
    orbit.emplace(*bodies.primary, *bodies.secondary, given, epoch);
  } catch (...) {
    Fail("states:fatal " + shape + " " + kind, description);
    return;
  }
  Vec const w = (1 / NormOf(h)) * h;
  Vec p = e < 1e-19L ? (1 / nq) * q : (1 / e) * ev;
  p = p - Dot(p, w) * w;
  p = (1 / NormOf(p)) * p;
  Real const nu = std::atan2(Dot(q, Cross(w, p)), Dot(q, p));
  Real const mean = MeanAnomaly(e, nu);
  Real const l = Dot(h, h) / mu;
  Real const a = std::abs(l / ((1 - e) * (1 + e)));
  Real const n = std::sqrt(mu / (a * a * a));
  Elements const& k = orbit->elements_at_epoch();
  CheckMessage(k, "from a state");
  // The conditioning of the energy.
  Real const κ = (Dot(v, v) / 2 + mu / nq) / (mu / (2 * a)) / (sine * sine);
  for (int z = 0; z < ELEMENTS; ++z) {
    auto const value = GetElement(k, z);
    if (!value) {
      VERIF(false, std::string("states:missing ") + names[z], "");
      continue;
    }
    if (hyperbolic ? EllipticOnly(z) : HyperbolicOnly(z)) {
      VERIF(std::isnan(*value),
            std::string("states:not NaN ") + names[z] + " of " + kind, *value);
      continue;
    }
    Real const expected = Define(z, e, l, mu);
    Real const h = 1e-9L * std::abs(1 - e);
    Real const tolerance =
        ulp * (std::abs(expected) * (1 + κ) +
               std::abs(Define(z, e + h, l, mu) - expected) / h * (1 + e) * κ);
    double const error =
        static_cast<double>(std::abs(*value - expected) / tolerance);
    Max(std::string("states: error of ") + names[z], error);
    VERIF(error < 64, std::string("states:wrong ") + names[z],
          *value << " for " << static_cast<double>(expected) << ", " << error);
  }
  if (!k.true_anomaly || !k.mean_anomaly || !k.hyperbolic_mean_anomaly ||
      !k.argument_of_periapsis || !k.longitude_of_periapsis) {
    VERIF(false, "states:missing angles", "");
    return;
  }
  double const inclination =
      static_cast<double>(std::atan2(std::hypot(h[0], h[1]), h[2]));
  VERIF(AngleDistance(k.inclination / Radian, inclination) < 1e-14 / sine,
        "states:inclination", k.inclination);
  VERIF(AngleDistance((*k.longitude_of_periapsis - *k.argument_of_periapsis) /
                          Radian,
                      k.longitude_of_ascending_node / Radian) < 1e-14,
        "states:longitude of periapsis", "");
  double const sin_i = std::sin(inclination);
  if (sin_i > 1e-3) {
    VERIF(AngleDistance(k.longitude_of_ascending_node / Radian,
                        std::atan2(h[0], -h[1])) < 1e-13 / sine / sin_i,
          "states:node", k.longitude_of_ascending_node);
    if (e > 1e-3) {
      Vec const node = {-h[1], h[0], 0};
      double const expected = static_cast<double>(
          std::atan2(Dot(Cross(node, p), w), Dot(node, p)));
      VERIF(AngleDistance(*k.argument_of_periapsis / Radian, expected) <
                1e-13 * (1 + static_cast<double>(κ)) /
                    std::min(sin_i, static_cast<double>(e)) / sine,
            "states:argument of periapsis",
            *k.argument_of_periapsis << " for " << expected);
    }
  }
  if (e > 1e-3) {
    VERIF(AngleDistance(*k.true_anomaly / Radian, nu) <
              1e-13 * (1 + static_cast<double>(κ)) /
                  std::min(1.0, static_cast<double>(e)) / sine,
          "states:true anomaly",
          *k.true_anomaly << " for " << static_cast<double>(nu));
  }
  if (hyperbolic) {
    VERIF(std::isnan(*k.mean_anomaly / Radian),
          "states:not NaN mean anomaly of " + kind, "");
  } else {
    VERIF(std::isnan(*k.hyperbolic_mean_anomaly / Radian),
          "states:not NaN hyperbolic mean anomaly of " + kind, "");
  }
  // How the true anomaly and the eccentricity, and their errors, change the
  // mean anomaly.
  Real const δ = 1e-9L * std::abs(1 - e);
  Real const slip =
      ulp * (1 + std::abs(mean) +
             (std::abs(MeanAnomaly(e + δ, nu) - MeanAnomaly(e, nu)) +
              std::abs(MeanAnomaly(e, nu + δ) - MeanAnomaly(e, nu)) / sine) /
                 δ * (1 + e) * κ);
  for (int j = 0; j < 4; ++j) {
    double const mean_change =
        j == 0 ? 0
               : hyperbolic
                     ? Log10Uniform(r, -3, 4) * (Chance(r, 0.5) ? 1 : -1)
                     : Uniform(r, -1, 1) * std::pow(10, Int(r, 0, 4));
    double const delta = mean_change / n;
    Instant const t = epoch + delta * Second;
    double const actual_delta = (t - epoch) / Second;
    try {
      CheckState(*orbit, t, mu, e, l, p, w, mean + n * actual_delta,
                 slip + 2 * ulp * std::abs(n * actual_delta) * (1 + κ),
                 20 + κ * (1 + e) / sine,
                 j == 0 ? "states at epoch" : "states");
    } catch (...) {
      Fail("states:fatal state of " + kind,
           description + " at " + Str(actual_delta));
    }
    Count("states propagated", 1);
  }
}

void Run() {
  absl::shim::SetThreadFatalMode(absl::shim::FatalMode::Throw);
  if (Selected("elements")) {
    Rng r = MakeRng("elements");
    for (int i = 0, n = N(3000); i < n; ++i) {
      ElementsCase(r);
    }
  }
  if (Selected("states")) {
    Rng r = MakeRng("states");
    for (int i = 0, n = N(3000); i < n; ++i) {
      StatesCase(r);
    }
  }
}

}  // namespace

VERIF_MAIN(Run)
