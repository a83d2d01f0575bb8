// C07: Elliptic integrals and functions.
#include <absl/synchronization/mutex.h>

#include <algorithm>
#include <boost/math/special_functions/ellint_rd.hpp>
#include <boost/math/special_functions/ellint_rf.hpp>
#include <boost/math/special_functions/ellint_rj.hpp>
#include <cmath>
#include <limits>
#include <string>

#include "numerics/elliptic_functions.hpp"
#include "numerics/elliptic_integrals.hpp"
#include "quantities/numbers.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "verif.hpp"

using namespace principia::numerics::_elliptic_functions;
using namespace principia::numerics::_elliptic_integrals;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace verif;

namespace {

using Real = long double;
constexpr Real pi = 3.14159265358979323846264338327950288L;
using principia::π;
constexpr Real ε = std::numeric_limits<double>::epsilon() / 2;

// The integrals and their derivatives with respect to φ.
struct Integrals {
  Real b = 0;
  Real d = 0;
  Real j = 0;
  Real db = 0;
  Real dd = 0;
  Real dj = 0;
};

// For |φ| ≤ π/2.
Integrals Central(Real const φ, Real const n, Real const mc) {
  Real const s = std::sin(φ);
  Real const c = std::cos(φ);
  Real const x = c * c;
  Real const y = x + mc * s * s;
  Real const p = x + (1 - n) * s * s;
  Real const s3 = s * s * s / 3;
  Real const Δ = std::sqrt(y);
  Integrals r;
  if (s == 0) {
    r.db = 1;
    return r;
  }
  r.d = s3 * boost::math::ellint_rd(x, y, 1.0L);
  r.b = s * boost::math::ellint_rf(x, y, 1.0L) - r.d;
  r.j = s3 * boost::math::ellint_rj(x, y, 1.0L, p);
  r.db = x / Δ;
  r.dd = s * s / Δ;
  r.dj = s * s / (Δ * p);
  return r;
}

Integrals Complete(Real const n, Real const mc) {
  Integrals r;
  r.d = boost::math::ellint_rd(0.0L, mc, 1.0L) / 3;
  r.b = boost::math::ellint_rf(0.0L, mc, 1.0L) - r.d;
  r.j = boost::math::ellint_rj(0.0L, mc, 1.0L, 1 - n) / 3;
  return r;
}

Integrals Reference(double const φ, Real const n, Real const mc) {
  Real const j = std::nearbyint(φ / pi);
  Integrals r = Central(φ - j * pi, n, mc);
  if (j != 0) {
    Integrals const complete = Complete(n, mc);
    r.b += 2 * j * complete.b;
    r.d += 2 * j * complete.d;
    r.j += 2 * j * complete.j;
  }
  return r;
}

void Check(std::string const& what, Real const actual, Real const expected,
           Real const error, double const bound) {
  Real const ulps =
      actual == expected ? 0 : std::abs(actual - expected) / (ε * error);
  Max("error of " + what, static_cast<double>(ulps / bound));
  VERIF(ulps <= bound, what, actual << " for " << expected << ", " << ulps
                                    << " units");
}

// In ]0, 1], down to the given power of 10.
double Small(Rng& r, int const exponent) {
  return std::pow(10, Uniform(r, exponent, 0));
}

double RandomComplementaryParameter(Rng& r) {
  switch (Int(r, 0, 5)) {
    case 0: return Small(r, -30);
    case 1: return 1 - Small(r, -16);
    case 2: return Int(r, 1, 16) / 16.0;
    // The bounds of the intervals of the polynomial approximations.
    case 3: {
      double const x = Int(r, 1, 20) / 20.0;
      return Chance(r, 0.5) ? std::nextafter(x, Chance(r, 0.5) ? 0.0 : 1.0)
                            : x;
    }
    default: return 1 - Uniform(r, 0, 1);
  }
}

double RandomCharacteristic(Rng& r) {
  switch (Int(r, 0, 5)) {
    case 0: return 0;
    case 1: return Small(r, -20);
    case 2: return 1 - Small(r, -10);
    case 3: return Int(r, 0, 15) / 16.0;
    default: return Uniform(r, 0, 1);
  }
}

double RandomAmplitude(Rng& r) {
  double const sign = Chance(r, 0.3) ? -1 : 1;
  switch (Int(r, 0, 6)) {
    case 0: return sign * Small(r, -12);
    case 1: return sign * (π / 2 - Small(r, -14));
    case 2: return sign * Int(r, 1, 20) * (π / 2);
    case 3: return sign * (Int(r, 1, 20) * (π / 2) +
                           (Chance(r, 0.5) ? -1 : 1) * Small(r, -14));
    case 4: return sign * Uniform(r, 0, 1000);
    default: return sign * Uniform(r, 0, π / 2);
  }
}

void IntegralCase(Rng& r) {
  double const mc = RandomComplementaryParameter(r);
  double n = RandomCharacteristic(r);
  // Special relations.
  if (Chance(r, 0.1)) {
    n = 1 - mc;
  } else if (Chance(r, 0.05)) {
    n = 1 - std::sqrt(mc);
  }
  if (!(n < 1)) {
    n = 0.5;
  }
  double const φ = RandomAmplitude(r);
  std::string const s =
      "phi = " + Str(φ) + ", n = " + Str(n) + ", mc = " + Str(mc);
  SetCase(s);
  Case(s);
  Integrals const e = Reference(φ, n, mc);
  Real const reduced = std::abs(φ - std::nearbyint(φ / pi) * pi);
  Real const x = std::abs(φ);
  Real const sine = std::sin(reduced);
  Real const p = x > pi / 2 ? 1 - static_cast<Real>(n)
                            : 1 - n * sine * sine;
  Real const error_b = std::abs(e.b) + x * e.db;
  Real const error_d = std::abs(e.d) + x * e.dd;
  Real const error_j = std::abs(e.j) / p + x * e.dj;
  Angle b;
  Angle d;
  Angle j;
  FukushimaEllipticBDJ(φ * Radian, n, mc, b, d, j);
  // The computation of J is less accurate when n is close to 1.
  double const j_bound = 300 + 3 / (1 - n);
  Check("B", b / Radian, e.b, error_b, 300);
  Check("D", d / Radian, e.d, error_d, 100);
  Check("J", j / Radian, e.j, error_j, j_bound);
  Angle b2;
  Angle d2;
  FukushimaEllipticBD(φ * Radian, mc, b2, d2);
  VERIF(b == b2 && d == d2, "BD and BDJ differ", s);
  Real const error_f = std::abs(e.b) + std::abs(e.d) + x * (e.db + e.dd);
  Real const error_e =
      std::abs(e.b) + std::abs(mc * e.d) + x * (e.db + mc * e.dd);
  Real const error_Π = error_f + n * error_j;
  Angle f;
  Angle ee;
  Angle Π;
  EllipticFEΠ(φ * Radian, n, mc, f, ee, Π);
  Check("F", f / Radian, e.b + e.d, error_f, 100);
  Check("E", ee / Radian, e.b + mc * e.d, error_e, 300);
  Check("Pi", Π / Radian, e.b + e.d + n * e.j, error_Π, j_bound);
  Check("separate F", EllipticF(φ * Radian, mc) / Radian, e.b + e.d, error_f,
        100);
  Check("separate E", EllipticE(φ * Radian, mc) / Radian, e.b + mc * e.d,
        error_e, 300);
  Check("separate Pi", EllipticΠ(φ * Radian, n, mc) / Radian,
        e.b + e.d + n * e.j, error_Π, j_bound);
  Angle f2;
  Angle e2;
  EllipticFE(φ * Radian, mc, f2, e2);
  VERIF(f2 == f && e2 == ee, "FE and FEPi differ", s);
  Integrals const complete = Complete(n, mc);
  Check("K", EllipticK(mc) / Radian, complete.b + complete.d,
        complete.b + complete.d, 20);
  // Parity.
  Check("F of the opposite", -EllipticF(-φ * Radian, mc) / Radian, e.b + e.d,
        error_f, 100);
  Check("E of the opposite", -EllipticE(-φ * Radian, mc) / Radian,
        e.b + mc * e.d, error_e, 300);
  Count("integrals", 1);
  Count(x > pi / 2 ? "reduced amplitudes" : "amplitudes", 1);
}

void FunctionCase(Rng& r) {
  double const mc = RandomComplementaryParameter(r);
  Real const K = boost::math::ellint_rf(0.0L, static_cast<Real>(mc), 1.0L);
  double u;
  double const sign = Chance(r, 0.3) ? -1 : 1;
  switch (Int(r, 0, 5)) {
    case 0: u = sign * Small(r, -12); break;
    // Close to the points where the reduction changes.
    case 1: u = sign * (Int(r, 1, 20) / 2.0) * static_cast<double>(K); break;
    case 2:
      u = sign * (Int(r, 1, 20) / 2.0) * static_cast<double>(K) +
          (Chance(r, 0.5) ? -1 : 1) * Small(r, -14);
      break;
    case 3: u = sign * Uniform(r, 0, 100); break;
    default: u = sign * Uniform(r, 0, 5) * static_cast<double>(K); break;
  }
  std::string const s = "u = " + Str(u) + ", mc = " + Str(mc);
  SetCase(s);
  Case(s);
  // Reduce to [-K, K].
  Real const j = std::nearbyint(u / (2 * K));
  Real const v = u - 2 * j * K;
  bool const close = std::abs(v) <= K / 2;
  Real const w = close ? v : K - std::abs(v);
  // The amplitude of `w`, by bisection and Newton's method on F.
  Real low = -pi / 2;
  Real high = pi / 2;
  Real φ = 0;
  auto const F = [mc](Real const φ) {
    Real const s = std::sin(φ);
    Real const c = std::cos(φ);
    return s == 0 ? 0 : s * boost::math::ellint_rf(c * c, c * c + mc * s * s,
                                                   1.0L);
  };
  for (int i = 0; i < 200; ++i) {
    Real const f = F(φ) - w;
    if (f == 0) {
      break;
    }
    (f > 0 ? high : low) = φ;
    Real const sine = std::sin(φ);
    Real const cosine = std::cos(φ);
    Real next = φ - f * std::sqrt(cosine * cosine + mc * sine * sine);
    if (!(next > low && next < high)) {
      next = (low + high) / 2;
    }
    if (std::abs(next - φ) <= 1e-20L * std::abs(φ)) {
      break;
    }
    φ = next;
  }
  Real const parity = std::fmod(j, 2.0L) == 0 ? 1 : -1;
  Real const sine = std::sin(φ);
  Real const cosine = std::cos(φ);
  Real const Δ = std::sqrt(cosine * cosine + mc * sine * sine);
  Real const kʹ = std::sqrt(static_cast<Real>(mc));
  // Close to K, use the functions of K - v to preserve the relative accuracy.
  Real const sign_v = v < 0 ? -1 : 1;
  Real const sn = parity * (close ? sine : sign_v * cosine / Δ);
  Real const cn = parity * (close ? cosine : kʹ * sine / Δ);
  Real const dn = close ? Δ : kʹ / Δ;
  Real const amplitude = close ? φ : std::atan2(parity * sn, parity * cn);
  double s1;
  double c1;
  double d1;
  JacobiSNCNDN(u * Radian, mc, s1, c1, d1);
  Real const x = std::abs(u);
  Real const m = 1 - static_cast<Real>(mc);
  // Small values are less accurate close to m = 1.
  double const bound = mc > 1e-4 ? 50 : 10000;
  Check("sn", s1, sn, std::abs(sn) + x * std::abs(cn * dn), 50);
  Check("cn", c1, cn, std::abs(cn) + x * std::abs(sn * dn),
        bound);
  Check("dn", d1, dn, std::abs(dn) + x * m * std::abs(sn * cn),
        bound);
  Real const am = JacobiAmplitude(u * Radian, mc) / Radian;
  Check("am", am, amplitude + j * pi,
        std::abs(amplitude + j * pi) + x * dn, 50);
  VERIF(JacobiAmplitude(-u * Radian, mc) == -JacobiAmplitude(u * Radian, mc),
        "odd amplitude", s);
  Count("functions", 1);
  Count(x > K ? "reduced arguments" : "arguments", 1);
}

void Run() {
  absl::shim::SetThreadFatalMode(absl::shim::FatalMode::Throw);
  if (Selected("integrals")) {
    Rng r = MakeRng("integrals");
    for (int i = 0, n = N(20000); i < n; ++i) {
      IntegralCase(r);
    }
  }
  if (Selected("functions")) {
    Rng r = MakeRng("functions");
    for (int i = 0, n = N(20000); i < n; ++i) {
      FunctionCase(r);
    }
  }
}

}  // namespace

VERIF_MAIN(Run)
