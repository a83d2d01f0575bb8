// The root finders, the quadratures, the local and global optimizers, against
// problems whose solutions are known and the values that they really sampled.

#include <absl/synchronization/mutex.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/statusor.h"
#include "base/algebra.hpp"
#include "base/multiprecision.hpp"
#include "boost/multiprecision/cpp_bin_float.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/space.hpp"
#include "numerics/fixed_arrays.hpp"
#include "numerics/global_optimization.hpp"
#include "numerics/gradient_descent.hpp"
#include "numerics/quadrature.hpp"
#include "numerics/root_finders.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "verif.hpp"

namespace verif {

using namespace principia::base::_multiprecision;
using namespace principia::base::_algebra;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::numerics::_fixed_arrays;
using namespace principia::numerics::_global_optimization;
using namespace principia::numerics::_gradient_descent;
using namespace principia::numerics::_quadrature;
using namespace principia::numerics::_root_finders;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using principia::π;

using LD = long double;
using Big = boost::multiprecision::cpp_bin_float_100;
constexpr double ε = std::numeric_limits<double>::epsilon();
constexpr double half_ε = ε / 2;

using World = Frame<struct WorldTag>;

std::string Hex(double const x) {
  char b[40];
  std::snprintf(b, sizeof(b), "%.17g", x);
  return b;
}

// ---------------------------------------------------------------------------
// Root finders.

// Moves `x` by `n` representable values.
double Step(double x, int n) {
  for (; n > 0; --n) {
    x = std::nextafter(x, std::numeric_limits<double>::infinity());
  }
  for (; n < 0; ++n) {
    x = std::nextafter(x, -std::numeric_limits<double>::infinity());
  }
  return x;
}

int SignOf(double const y) { return y > 0 ? 1 : y < 0 ? -1 : 0; }

// Whether `g` changes sign or vanishes within `n` representable values of `x`,
// without leaving [a, b].
bool ChangesSignNear(std::function<double(double)> const& g, double const x,
                     int const n, double const a, double const b) {
  int seen = 0;
  for (int k = -n; k <= n; ++k) {
    double const y = Step(x, k);
    if (y < a || y > b) {
      continue;
    }
    int const s = SignOf(g(y));
    if (s == 0 || (seen != 0 && s != seen)) {
      return true;
    }
    seen = s;
  }
  return false;
}

// Arguments as plain numbers, quantities, or points.
double Plain(double const x) { return x; }
double Plain(Length const& x) { return x / Metre; }
double Plain(Instant const& x) { return (x - Instant()) / Second; }
template<typename A>
A Make(double const x) {
  if constexpr (std::is_same_v<A, double>) {
    return x;
  } else if constexpr (std::is_same_v<A, Length>) {
    return x * Metre;
  } else {
    return Instant() + x * Second;
  }
}

// What the solver asked of the function.
struct Log {
  std::vector<std::pair<double, double>> evaluations;
  double a;
  double b;
};

template<typename A, typename V>
auto Observed(std::function<double(double)> const& g, Log& log) {
  return [&g, &log](A const& x) -> V {
    double const plain = Plain(x);
    double const y = g(plain);
    log.evaluations.emplace_back(plain, y);
    if (log.evaluations.size() > 200'000) {
      Fail("root finder does not terminate", Hex(log.a) + " " + Hex(log.b));
      throw 1;
    }
    if constexpr (std::is_same_v<V, double>) {
      return y;
    } else {
      return y * Newton;
    }
  };
}

void CheckInside(Log const& log, std::string const& what) {
  for (auto const& [x, y] : log.evaluations) {
    VERIF(x >= log.a && x <= log.b, what + ": evaluates outside the bounds",
          Hex(x) << " not in [" << Hex(log.a) << ", " << Hex(log.b) << "]");
  }
}

struct SignProblem {
  std::function<double(double)> g;
  double a;
  double b;
  bool smooth;
  std::string description;
};

SignProblem RandomSignProblem(Rng& r) {
  SignProblem p;
  int const where = Int(r, 0, 5);
  double centre;
  double width;
  switch (where) {
    case 0:
      centre = LogUniform(r, -20, 20);
      width = std::abs(centre) * std::exp2(Uniform(r, -45, 8));
      break;
    case 1:
      centre = 0;
      width = std::abs(LogUniform(r, -30, 30));
      break;
    case 2:
      centre = LogUniform(r, -400, 400);
      width = std::abs(centre) * std::exp2(Uniform(r, -20, 20));
      break;
    default:
      centre = LogUniform(r, -3, 3);
      width = std::abs(LogUniform(r, -6, 4));
  }
  p.a = centre - width * Uniform(r, 0.01, 1);
  p.b = centre + width * Uniform(r, 0.01, 1);
  if (!(p.a < p.b)) {
    p.b = Step(p.a, 1 + Int(r, 0, 20));
  }
  double root = Chance(r, 0.1)   ? Step(p.a, Int(r, 0, 3))
                : Chance(r, 0.1) ? Step(p.b, -Int(r, 0, 3))
                                 : Uniform(r, p.a, p.b);
  if (p.a < 0 && p.b > 0 && Chance(r, 0.5)) {
    // A root very close to 0, where the representable values are dense.
    double const tiny = LogUniform(r, Chance(r, 0.5) ? -900 : -100, -20);
    root = tiny * std::min(-p.a, p.b);
  }
  double const w = p.b - p.a;
  double const scale = LogUniform(r, -40, 40);
  int const kind = Int(r, 0, 7);
  p.smooth = kind <= 2;
  switch (kind) {
    case 0:
      p.g = [=](double const x) { return scale * ((x - root) / w); };
      break;
    case 1: {
      double const κ = Uniform(r, -0.45, 0.45);
      p.g = [=](double const x) {
        double const u = (x - root) / w;
        return scale * u * (1 + κ * u + 0.3 * u * u);
      };
      break;
    }
    case 2: {
      double const k = Uniform(r, 0.5, 8);
      p.g = [=](double const x) {
        return scale * std::expm1(k * (x - root) / w);
      };
      break;
    }
    case 3: {
      // A zero of high order.
      int const n = 2 * Int(r, 1, 5) + 1;
      p.g = [=](double const x) {
        return scale * std::pow((x - root) / w, n);
      };
      break;
    }
    case 4: {
      double const n = Uniform(r, 0.05, 0.9);
      p.g = [=](double const x) {
        double const u = (x - root) / w;
        return scale * std::copysign(std::pow(std::abs(u), n), u);
      };
      break;
    }
    case 5:
      // A step, never 0.
      p.g = [=](double const x) { return x < root ? -scale : scale * 1e-3; };
      break;
    case 6: {
      // Very asymmetric slopes.
      double const slope = std::exp2(Uniform(r, -60, 60));
      p.g = [=](double const x) {
        double const u = (x - root) / w;
        return scale * (u < 0 ? u : u * slope);
      };
      break;
    }
    default: {
      // Pseudorandom values in the interior: the only thing to rely on is the
      // sign at the bounds.
      std::uint64_t const salt = r();
      double const a = p.a;
      double const b = p.b;
      p.g = [=](double const x) {
        double const magnitude =
            std::exp2(static_cast<int>(Mix(Bits(x) ^ salt) % 40) - 20);
        return x <= a   ? -scale
               : x >= b ? scale
                        : (Mix(Bits(x) + salt) & 1 ? magnitude : -magnitude);
      };
    }
  }
  p.description = Str("kind ", kind, " [", Hex(p.a), ", ", Hex(p.b), "] root ",
                      Hex(root), " scale ", Hex(scale));
  return p;
}

template<typename A, typename V>
void Zero(Rng& r) {
  SignProblem const p = RandomSignProblem(r);
  SetCase(p.description);
  double const ga = p.g(p.a);
  double const gb = p.g(p.b);
  if (ga != 0 && gb != 0 && SignOf(ga) == SignOf(gb)) {
    Count("no sign change");
    return;
  }
  Case(p.description);
  // Bisection.
  {
    Log log{.evaluations = {}, .a = p.a, .b = p.b};
    double const x = Plain(Bisect(Observed<A, V>(p.g, log), Make<A>(p.a),
                                  Make<A>(p.b)));
    CheckInside(log, "Bisect");
    VERIF(x >= p.a && x <= p.b, "Bisect: outside the bounds", Hex(x));
    VERIF(ChangesSignNear(p.g, x, 1, p.a, p.b), "Bisect: not at a root",
          Hex(x) << " " << p.description);
    VERIF(log.evaluations.size() < 2200, "Bisect: too many evaluations",
          log.evaluations.size());
    Max("bisection evaluations", log.evaluations.size());
  }
  // Brent's zero, with the bounds in both orders.
  for (bool const reversed : {false, true}) {
    Log log{.evaluations = {}, .a = p.a, .b = p.b};
    A const lower = Make<A>(reversed ? p.b : p.a);
    A const upper = Make<A>(reversed ? p.a : p.b);
    double const x = Plain(Brent(Observed<A, V>(p.g, log), lower, upper));
    CheckInside(log, "Brent zero");
    VERIF(x >= p.a && x <= p.b, "Brent zero: outside the bounds", Hex(x));
    // The bracket is no more than 4 ϵ |x| wide.
    VERIF(ChangesSignNear(p.g, x, 5, p.a, p.b), "Brent zero: not at a root",
          Hex(x) << " " << p.description);
    Max("Brent zero evaluations", log.evaluations.size());
    if (p.smooth) {
      Max("Brent zero evaluations, smooth", log.evaluations.size());
      VERIF(log.evaluations.size() <= 140, "Brent zero: slow on a smooth one",
            log.evaluations.size() << " " << p.description);
    }
  }
}

// A function that decreases up to `r` and increases afterwards, with values
// that are exact enough near `r` for the order of the doubles to be right.
struct Unimodal {
  std::function<double(double)> g;
  double a;
  double b;
  double root;
  // The distance to `root` at which the values are indistinguishable from that
  // at `root`.
  double flat;
  std::string description;
};

Unimodal RandomUnimodal(Rng& r) {
  Unimodal p;
  double const centre = Chance(r, 0.3) ? 0 : LogUniform(r, -10, 10);
  double const width =
      std::max(std::abs(LogUniform(r, -10, 10)), std::abs(centre) * 1e-6);
  p.a = centre - width * Uniform(r, 0.01, 1);
  p.b = centre + width * Uniform(r, 0.01, 1);
  p.root = Chance(r, 0.1)   ? p.a
           : Chance(r, 0.1) ? p.b
                            : Uniform(r, p.a, p.b);
  double const root = p.root;
  double const w = p.b - p.a;
  double const scale = std::abs(LogUniform(r, -20, 20));
  int const kind = Int(r, 0, 5);
  p.flat = 0;
  switch (kind) {
    case 0:
      p.g = [=](double const x) { return scale * (x - root) * (x - root); };
      break;
    case 1:
      p.g = [=](double const x) { return scale * std::abs(x - root); };
      break;
    case 2:
      p.g = [=](double const x) {
        double const u = (x - root) / w;
        return scale * (u * u * u * u + 0.01 * u * u);
      };
      break;
    case 3: {
      double const slope = std::exp2(Uniform(r, -10, 10));
      p.g = [=](double const x) {
        double const u = (x - root) / w;
        return scale * (u < 0 ? -u : u * u * slope);
      };
      break;
    }
    case 4: {
      double const depth = Uniform(r, 0.5, 5);
      double const k = Uniform(r, 0.5, 5);
      p.g = [=](double const x) {
        double const u = k * (x - root) / w;
        return scale * (1 - depth / (1 + u * u));
      };
      p.flat = w / k * std::sqrt(4 * ε * (1 + 1 / depth)) * 4;
      break;
    }
    default: {
      double const k = Uniform(r, 0.5, 5);
      p.g = [=](double const x) {
        return -scale * std::cos(k * (x - root) / w / 2);
      };
      p.flat = w / k * std::sqrt(4 * ε) * 4;
    }
  }
  p.description = Str("unimodal ", kind, " [", Hex(p.a), ", ", Hex(p.b),
                      "] at ", Hex(p.root), " scale ", Hex(scale));
  return p;
}

// A value with an order that has nothing to do with arithmetic.
struct Rank {
  double key;
  int tag;
};

template<typename A, typename V>
void Extremum(Rng& r) {
  Unimodal const p = RandomUnimodal(r);
  SetCase(p.description);
  Case(p.description);
  std::function<double(double)> const opposite = [&p](double const x) {
    return -p.g(x);
  };
  // Brent.
  {
    double const eps = Chance(r, 0.5)   ? std::sqrt(half_ε)
                       : Chance(r, 0.2) ? 0
                                        : std::exp2(Uniform(r, -50, -5));
    double const used = std::max(eps, 2 * half_ε);
    for (bool const maximum : {false, true}) {
      Log log{.evaluations = {}, .a = p.a, .b = p.b};
      auto const f = Observed<A, V>(maximum ? opposite : p.g, log);
      double const x = Plain(
          maximum
              ? Brent(f, Make<A>(p.a), Make<A>(p.b), std::greater<>(), eps)
              : Brent(f, Make<A>(p.a), Make<A>(p.b), std::less<>(), eps));
      CheckInside(log, "Brent extremum");
      {
        double const best = p.g(x);
        for (auto const& [y, v] : log.evaluations) {
          VERIF((maximum ? -v : v) >= best,
                "Brent extremum: evaluated a better point",
                Hex(y) << " is better than " << Hex(x) << ": "
                       << p.description);
        }
      }
      double const allowed =
          3.01 * (used * std::max(std::abs(x), std::abs(p.root)) +
                  4.94e-324) +
          p.flat;
      Max("Brent extremum error / allowed", std::abs(x - p.root) / allowed);
      Max("Brent extremum evaluations", log.evaluations.size());
      VERIF(std::abs(x - p.root) <= allowed, "Brent extremum: error",
            Hex(x) << " vs " << Hex(p.root) << " allowed " << allowed
                   << " eps " << eps << " max " << maximum << " "
                   << p.description);
    }
  }
  // Golden section, for an ordinary order and a strange one.
  {
    for (bool const maximum : {false, true}) {
      Log log{.evaluations = {}, .a = p.a, .b = p.b};
      auto const f = Observed<A, V>(maximum ? opposite : p.g, log);
      double const x = Plain(
          maximum ? GoldenSectionSearch(f, Make<A>(p.a), Make<A>(p.b),
                                        std::greater<>())
                  : GoldenSectionSearch(f, Make<A>(p.a), Make<A>(p.b),
                                        std::less<>()));
      CheckInside(log, "golden section");
      double const allowed =
          p.flat + 6 * ε * std::max(std::abs(x), std::abs(p.root)) + 1e-322;
      Max("golden section error / allowed", std::abs(x - p.root) / allowed);
      VERIF(std::abs(x - p.root) <= allowed, "golden section: error",
            Hex(x) << " vs " << Hex(p.root) << " allowed " << allowed << " "
                   << p.description);
      Max("golden section evaluations", log.evaluations.size());
    }
    auto const strange = [](Rank const& left, Rank const& right) {
      return left.key > right.key ||
             (left.key == right.key && left.tag < right.tag);
    };
    double const x = Plain(GoldenSectionSearch(
        [&p](A const& x) {
          double const y = Plain(x);
          return Rank{.key = -p.g(y), .tag = y < 0};
        },
        Make<A>(p.a), Make<A>(p.b), strange));
    VERIF(std::abs(x - p.root) <=
              p.flat + 6 * ε * std::max(std::abs(x), std::abs(p.root)) +
                  1e-322,
          "golden section: strange order", Hex(x) << " " << p.description);
  }
}

// Functions with known, well separated zeroes.
void Zeroes(Rng& r) {
  double const offset = Chance(r, 0.5) ? 0 : Uniform(r, -3, 3);
  double const size = std::exp2(Int(r, -8, 8));
  double const a = offset * size;
  double const b = (offset + 1) * size;
  std::vector<double> roots;
  std::function<double(double)> g;
  double const scale = LogUniform(r, -10, 10);
  int const kind = Int(r, 0, 5);
  std::string description;
  auto at = [&](double const u) { return a + u * (b - a); };
  switch (kind) {
    case 0: {
      // Monotone.
      double const u = Uniform(r, -0.5, 1.5);
      if (u > 0.001 && u < 0.999) {
        roots.push_back(at(u));
      } else if (u > -0.001 && u < 1.001) {
        return;
      }
      double const x0 = at(u);
      g = [=](double const x) { return scale * std::expm1((x - x0) / size); };
      break;
    }
    case 1: {
      // Convex or concave with two zeroes.
      double const u = Uniform(r, 0.02, 0.9);
      double const v = Uniform(r, u + 0.02, 0.98);
      roots = {at(u), at(v)};
      double const x0 = at(u);
      double const x1 = at(v);
      g = [=](double const x) {
        return scale * ((x - x0) / size) * ((x - x1) / size) *
               (1 + std::exp((x - x0) / size));
      };
      if (Chance(r, 0.1)) {
        // Zeroes exactly at the bounds.
        roots = {a, b};
        g = [=](double const x) {
          return scale * ((x - a) / size) * ((x - b) / size);
        };
      }
      break;
    }
    case 2: {
      // One extremum, without a zero.
      double const x0 = at(Uniform(r, 0.1, 0.9));
      double const c = Uniform(r, 0.01, 1);
      g = [=](double const x) {
        double const u = (x - x0) / size;
        return scale * (u * u + c);
      };
      break;
    }
    case 3: {
      // A cubic whose zeroes and extrema are inside.
      double const u = Uniform(r, 0.05, 0.25);
      double const v = Uniform(r, 0.4, 0.6);
      double const w = Uniform(r, 0.75, 0.95);
      roots = {at(u), at(v), at(w)};
      double const x0 = at(u);
      double const x1 = at(v);
      double const x2 = at(w);
      g = [=](double const x) {
        return scale * ((x - x0) / size) * ((x - x1) / size) *
               ((x - x2) / size);
      };
      break;
    }
    case 4: {
      // One zero, and one extremum beyond it.
      double const u = Uniform(r, 0.05, 0.7);
      roots = {at(u)};
      double const x0 = at(u);
      double const x1 = at(1 + Uniform(r, 0.05, 0.3));
      g = [=](double const x) {
        return scale * ((x - x0) / size) * ((x - x1) / size);
      };
      break;
    }
    default: {
      // A bump that falls below zero on both sides.
      double const x0 = at(Uniform(r, 0.3, 0.7));
      double const h = Uniform(r, 0.02, 0.25);
      roots = {x0 - h * size, x0 + h * size};
      double const level = 1 / (1 + 25 * h * h);
      g = [=](double const x) {
        double const u = (x - x0) / size;
        return scale * (1 / (1 + 25 * u * u) - level);
      };
    }
  }
  description = Str("zeroes ", kind, " [", Hex(a), ", ", Hex(b), "] scale ",
                    Hex(scale));
  for (double const root : roots) {
    description += " " + Hex(root);
  }
  SetCase(description);
  Case(description);
  Log log{.evaluations = {}, .a = a, .b = b};
  auto const f = Observed<double, double>(g, log);
  auto const zeroes = DoubleBrent(f, a, b);
  CheckInside(log, "DoubleBrent");
  Max("DoubleBrent evaluations", log.evaluations.size());
  std::string found;
  for (double const zero : zeroes) {
    found += " " + Hex(zero);
    VERIF(zero >= a && zero <= b, "DoubleBrent: outside", found);
    VERIF(ChangesSignNear(g, zero, 6, a, b), "DoubleBrent: not a zero",
          Hex(zero) << " for " << description);
  }
  // A zero may be reported more than once, within the precision of the search
  // for a sign change.
  std::vector<double> separate;
  for (double const zero : zeroes) {
    if (separate.empty() ||
        zero - separate.back() > 8 * ε * std::abs(separate.back())) {
      separate.push_back(zero);
    } else {
      Count("zeroes reported twice");
    }
  }
  VERIF(separate.size() == roots.size(), "DoubleBrent: number of zeroes",
        separate.size() << " instead of " << roots.size() << ":" << found
                        << " for " << description);
  if (separate.size() == roots.size()) {
    int i = 0;
    for (double const zero : separate) {
      double const error = std::abs(zero - roots[i++]) / size;
      Max("DoubleBrent error", error);
      VERIF(error <= 1e-14, "DoubleBrent: error",
            error << " " << found << " for " << description);
    }
  }
}

template<typename A>
void Quadratic(Rng& r) {
  double a0;
  double a1;
  double a2;
  int const kind = Int(r, 0, 5);
  switch (kind) {
    case 0:
      a0 = LogUniform(r, -20, 20);
      a1 = LogUniform(r, -20, 20);
      a2 = LogUniform(r, -20, 20);
      break;
    case 1: {
      // Nearly double.
      double const x = LogUniform(r, -5, 5);
      a2 = LogUniform(r, -5, 5);
      a1 = -2 * a2 * x;
      a0 = Step(a2 * x * x, Int(r, -3, 3));
      break;
    }
    case 2: {
      // Small integers, often with a vanishing discriminant.
      double const p = Int(r, -9, 9);
      double const q = Chance(r, 0.5) ? p : Int(r, -9, 9);
      a2 = Int(r, 1, 5) * (Chance(r, 0.5) ? 1 : -1);
      a1 = -a2 * (p + q);
      a0 = a2 * p * q;
      break;
    }
    case 3:
      // Cancellation.
      a2 = LogUniform(r, -5, 5);
      a1 = LogUniform(r, 10, 25);
      a0 = LogUniform(r, -25, 0);
      break;
    case 4: {
      // The discriminant is not representable: 26 bits and their neighbours.
      double const x = static_cast<double>(Int(r, 1 << 26, 1 << 27));
      a2 = static_cast<double>(Int(r, 1 << 26, 1 << 27));
      a1 = 2 * x;
      a0 = std::nearbyint(x * x / a2) + Int(r, -1, 1);
      break;
    }
    default:
      a0 = Chance(r, 0.5) ? 0 : LogUniform(r, -5, 5);
      a1 = Chance(r, 0.5) ? 0 : LogUniform(r, -5, 5);
      a2 = LogUniform(r, -5, 5);
  }
  double const origin = Chance(r, 0.5) ? 0 : LogUniform(r, -10, 10);
  std::string const description = Str(
      "quadratic ", Hex(origin), " ", Hex(a0), " ", Hex(a1), " ", Hex(a2));
  SetCase(description);
  Case(description);
  std::vector<double> actual;
  if constexpr (std::is_same_v<A, double>) {
    for (double const x : SolveQuadraticEquation(origin, a0, a1, a2)) {
      actual.push_back(x);
    }
  } else {
    for (auto const& x : SolveQuadraticEquation(
             Make<A>(origin), a0 * Metre, a1 * Metre / Second,
             a2 * Metre / Second / Second)) {
      actual.push_back(Plain(x));
    }
  }
  Big const Δ = Big(a1) * a1 - 4 * Big(a0) * a2;
  std::vector<Big> expected;
  if (Δ == 0) {
    Count("vanishing discriminants");
    expected = {-Big(a1) / (2 * Big(a2))};
  } else if (Δ > 0) {
    Count("positive discriminants");
    Big const s = sqrt(Δ);
    Big const n = a1 > 0 ? -Big(a1) - s : -Big(a1) + s;
    expected = {n / (2 * Big(a2)), 2 * Big(a0) / n};
    std::sort(expected.begin(), expected.end());
  } else {
    Count("negative discriminants");
  }
  VERIF(actual.size() == expected.size(), "quadratic: number of solutions",
        actual.size() << " instead of " << expected.size() << " for "
                      << description);
  if (actual.size() != expected.size()) {
    return;
  }
  VERIF(std::is_sorted(actual.begin(), actual.end()), "quadratic: not sorted",
        description);
  for (std::size_t i = 0; i < actual.size(); ++i) {
    Big const x = expected[i] + origin;
    Big const allowed = abs(expected[i]) * ε * 4 + abs(x) * ε;
    Big const error = abs(Big(actual[i]) - x);
    if (allowed > 0) {
      Max("quadratic error / allowed", static_cast<double>(error / allowed));
    }
    VERIF(error <= allowed, "quadratic: error",
          Hex(actual[i]) << " vs " << x << " for " << description);
  }
}

void Roots() {
  Rng r = MakeRng("roots");
  for (int i = 0; i < N(4000); ++i) {
    Zero<double, double>(r);
    Zero<Length, double>(r);
    Zero<Instant, Force>(r);
  }
  for (int i = 0; i < N(2000); ++i) {
    Extremum<double, double>(r);
    Extremum<Length, Force>(r);
    Extremum<Instant, double>(r);
  }
  for (int i = 0; i < N(3000); ++i) {
    Zeroes(r);
  }
  for (int i = 0; i < N(20000); ++i) {
    Quadratic<double>(r);
    Quadratic<Instant>(r);
  }
}

// ---------------------------------------------------------------------------
// Quadrature.

// A polynomial given by its Chebyshev coefficients on [a, b].
struct Poly {
  std::vector<double> c;
  double a;
  double b;

  LD operator()(LD const x) const {
    LD const u = (2 * x - a - b) / (static_cast<LD>(b) - a);
    LD b1 = 0;
    LD b2 = 0;
    for (int k = c.size() - 1; k >= 1; --k) {
      LD const t = 2 * u * b1 - b2 + c[k];
      b2 = b1;
      b1 = t;
    }
    return u * b1 - b2 + c[0];
  }

  LD Integral() const {
    LD s = 0;
    for (std::size_t k = 0; k < c.size(); k += 2) {
      s += c[k] * 2 / (1 - static_cast<LD>(k) * k);
    }
    return s * (static_cast<LD>(b) - a) / 2;
  }

  double Size() const {
    double s = 0;
    for (double const x : c) {
      s += std::abs(x);
    }
    return s;
  }

  // A bound of the derivative times the half-width.
  double Slope() const {
    double s = 0;
    for (std::size_t k = 0; k < c.size(); ++k) {
      s += k * k * std::abs(c[k]);
    }
    return s;
  }
};

Poly RandomPoly(Rng& r, int const degree) {
  Poly p;
  p.a = Chance(r, 0.3) ? -1 : LogUniform(r, -5, 5);
  p.b = Chance(r, 0.3) && p.a < 1
            ? 1
            : p.a + std::abs(LogUniform(r, -5, 5)) *
                        (Chance(r, 0.2) ? -1 : 1);
  p.c.resize(degree + 1);
  bool const single = Chance(r, 0.3);
  for (int k = 0; k <= degree; ++k) {
    p.c[k] = single ? 0 : Uniform(r, -1, 1);
  }
  if (single) {
    p.c[degree] = Uniform(r, 0.5, 1);
  }
  p.c[0] += Chance(r, 0.3) ? 5 : 0;
  return p;
}

template<int points>
void GaussLegendreCase(Rng& r) {
  for (int i = 0; i < 4; ++i) {
    Poly const p =
        RandomPoly(r, i == 0 ? 2 * points - 1 : Int(r, 0, 2 * points - 1));
    std::string const description =
        Str("Gauss-Legendre ", points, " degree ", p.c.size() - 1, " [",
            Hex(p.a), ", ", Hex(p.b), "]");
    SetCase(description);
    Case(description);
    int evaluations = 0;
    double outside = 0;
    auto const f = [&](Length const& x) {
      ++evaluations;
      double const u = (2 * (x / Metre) - p.a - p.b) / (p.b - p.a);
      outside = std::max(outside, std::abs(u) - 1);
      return static_cast<double>(p(x / Metre)) * Newton;
    };
    Energy const actual =
        GaussLegendre<points>(f, p.a * Metre, p.b * Metre);
    LD const error = std::abs(actual / Joule - p.Integral());
    // The nodes are rounded; their errors are relative to the bounds.
    double const κ =
        std::max(std::abs(p.a), std::abs(p.b)) / std::abs(p.b - p.a);
    LD const allowed = ε * std::abs(p.b - p.a) *
                       ((points + 2) * p.Size() + 2 * (1 + κ) * p.Slope());
    Max("Gauss-Legendre error / allowed",
        static_cast<double>(error / allowed));
    VERIF(error <= allowed, "Gauss-Legendre: not exact",
          static_cast<double>(error) << " allowed "
                                     << static_cast<double>(allowed) << " "
                                     << description);
    VERIF(evaluations == points, "Gauss-Legendre: evaluations", evaluations);
    VERIF(outside <= 0, "Gauss-Legendre: outside the bounds", outside);
  }
}

template<int points>
void ClenshawCurtisCase(Rng& r) {
  using principia::numerics::_quadrature::internal::ClenshawCurtis;
  for (int i = 0; i < 4; ++i) {
    Poly const p = RandomPoly(r, i == 0 ? points - 1 : Int(r, 0, points - 1));
    std::string const description =
        Str("Clenshaw-Curtis ", points, " degree ", p.c.size() - 1, " [",
            Hex(p.a), ", ", Hex(p.b), "]");
    SetCase(description);
    Case(description);
    int evaluations = 0;
    auto const f = [&](Length const& x) {
      ++evaluations;
      return static_cast<double>(p(x / Metre)) * Newton;
    };
    Energy const actual =
        ClenshawCurtis<points>(f, p.a * Metre, p.b * Metre);
    LD const error = std::abs(actual / Joule - p.Integral());
    double const κ =
        std::max(std::abs(p.a), std::abs(p.b)) / std::abs(p.b - p.a);
    LD const allowed = ε * std::abs(p.b - p.a) *
                       (20 * p.Size() + 2 * (1 + κ) * p.Slope());
    Max("Clenshaw-Curtis error / allowed",
        static_cast<double>(error / allowed));
    VERIF(error <= allowed, "Clenshaw-Curtis: not exact",
          static_cast<double>(error) << " allowed "
                                     << static_cast<double>(allowed) << " "
                                     << description);
    VERIF(evaluations == points, "Clenshaw-Curtis: evaluations", evaluations);
  }
}

// The Clenshaw-Curtis quadrature on N + 1 points by its explicit weights.
LD NaiveClenshawCurtis(std::function<LD(LD)> const& f, double const a,
                       double const b, int const N) {
  static LD const π_ld = 3.14159265358979323846264338327950288L;
  // One table of cosines for each N.
  static std::map<int, std::vector<LD>> weights;
  auto& w = weights[N];
  if (w.empty()) {
    std::vector<LD> cosines(2 * N);
    for (int k = 0; k < 2 * N; ++k) {
      cosines[k] = std::cos(π_ld * k / N);
    }
    w.resize(N + 1);
    for (int s = 0; s <= N; ++s) {
      LD sum = 0;
      for (int n = 0; n <= N; n += 2) {
        LD const g = n == 0 || n == N ? 1 : 2;
        sum += g * cosines[static_cast<std::int64_t>(n) * s % (2 * N)] /
               (1 - static_cast<LD>(n) * n);
      }
      w[s] = sum / N * (s == 0 || s == N ? 1 : 2);
    }
  }
  LD result = 0;
  for (int s = 0; s <= N; ++s) {
    LD const u = std::cos(π_ld * s / N);
    result += w[s] * f((static_cast<LD>(a) + b) / 2 +
                       (static_cast<LD>(b) - a) / 2 * u);
  }
  return result * (static_cast<LD>(b) - a) / 2;
}

template<int initial_points>
void Automatic(Rng& r) {
  double const a = Uniform(r, -3, 2);
  double const b = a + Uniform(r, 0.1, 4);
  int const kind = Int(r, 0, 4);
  double const k = Uniform(r, 0.2, 6);
  double const c = Uniform(r, -2, 2);
  std::function<LD(LD)> g;
  std::function<LD(LD)> G;
  double size = 0;
  double slope = 0;
  switch (kind) {
    case 0:
      g = [=](LD const x) { return std::exp(c * x) + 1; };
      G = [=](LD const x) { return std::exp(c * x) / c + x; };
      size = std::exp(std::abs(c) * std::max(std::abs(a), std::abs(b))) + 1;
      slope = size * std::abs(c);
      if (std::abs(c) < 0.01) {
        return;
      }
      break;
    case 1:
      g = [=](LD const x) { return std::sin(k * x + c) + 2; };
      G = [=](LD const x) { return -std::cos(k * x + c) / k + 2 * x; };
      size = 3;
      slope = k;
      break;
    case 2:
      g = [=](LD const x) { return 1 / (1 + k * (x - c) * (x - c)); };
      G = [=](LD const x) {
        LD const s = std::sqrt(static_cast<LD>(k));
        return std::atan(s * (x - c)) / s;
      };
      size = 1;
      slope = 2 * k;
      break;
    case 3: {
      // Not smooth: convergence is slow.
      g = [=](LD const x) { return std::abs(x - c); };
      G = [=](LD const x) { return (x - c) * std::abs(x - c) / 2; };
      size = 8;
      slope = 1;
      break;
    }
    default:
      g = [=](LD const x) { return std::cosh(x) * std::cos(k * x); };
      G = [=](LD const x) {
        return (std::sinh(x) * std::cos(k * x) +
                k * std::cosh(x) * std::sin(k * x)) /
               (1 + static_cast<LD>(k) * k);
      };
      size = 250;
      slope = 250 * (1 + k);
  }
  std::optional<double> const max_relative_error =
      Chance(r, 0.8)
          ? std::optional<double>(std::exp2(Uniform(r, kind == 3 ? -16 : -44,
                                                    -4)))
          : std::nullopt;
  std::optional<int> const max_points =
      !max_relative_error.has_value() || Chance(r, 0.5)
          ? std::optional<int>(Int(r, 1, 600))
          : std::nullopt;
  std::string const description =
      Str("automatic ", initial_points, " kind ", kind, " [", Hex(a), ", ",
          Hex(b), "] ", Hex(k), " ", Hex(c), " ",
          max_relative_error.value_or(-1), " ", max_points.value_or(-1));
  SetCase(description);
  Case(description);
  int evaluations = 0;
  double outside = 0;
  auto const f = [&](Length const& x) {
    ++evaluations;
    outside = std::max({outside, a - x / Metre, x / Metre - b});
    return static_cast<double>(g(x / Metre)) * Newton;
  };
  Energy const actual_energy = AutomaticClenshawCurtis<initial_points>(
      f, a * Metre, b * Metre, max_relative_error, max_points);
  double const actual = actual_energy / Joule;
  VERIF(outside <= 0, "automatic Clenshaw-Curtis: outside", outside);
  // Replay the levels.  The decision may go either way near the threshold.
  double const noise = (40 * size + 10 * slope) * ε * (b - a);
  LD previous = NaiveClenshawCurtis(g, a, b, initial_points - 1);
  std::vector<std::pair<int, LD>> acceptable;
  for (int N = 2 * (initial_points - 1);; N *= 2) {
    LD const estimate = NaiveClenshawCurtis(g, a, b, N);
    LD const Δ = std::abs(estimate - previous);
    LD const threshold =
        max_relative_error.has_value()
            ? max_relative_error.value() * std::abs(estimate)
            : -1;
    bool const enough = max_points.has_value() && N + 1 >= *max_points;
    bool const may_stop = enough || Δ <= threshold + 3 * noise;
    bool const must_stop =
        enough || (max_relative_error.has_value() && Δ <= threshold - 3 * noise);
    if (may_stop && (max_relative_error.has_value() || enough)) {
      acceptable.emplace_back(N + 1, estimate);
    }
    if (must_stop) {
      break;
    }
    if (N > 60'000) {
      break;
    }
    previous = estimate;
  }
  bool ok = false;
  std::string levels;
  for (auto const& [points, estimate] : acceptable) {
    levels += Str(" ", points, ":", static_cast<double>(estimate));
    if (evaluations == points) {
      ok = std::abs(estimate - actual) <= noise;
      Max("automatic Clenshaw-Curtis error / noise",
          static_cast<double>(std::abs(estimate - actual) / noise));
    }
  }
  VERIF(ok, "automatic Clenshaw-Curtis: level",
        evaluations << " evaluations, result " << Hex(actual)
                    << ", acceptable levels" << levels << " for "
                    << description);
  Max("automatic points", evaluations);
  // On smooth functions the tolerance is attained.
  if (kind != 3 && max_relative_error.value_or(1) < 1e-6 &&
      !max_points.has_value()) {
    LD const exact = G(b) - G(a);
    LD const error = std::abs(exact - actual);
    VERIF(error <= *max_relative_error * std::abs(exact) * 2 + noise,
          "automatic Clenshaw-Curtis: tolerance",
          Hex(actual) << " vs " << static_cast<double>(exact) << " for "
                      << description);
  }
}

void VectorQuadrature(Rng& r) {
  // Vector-valued integrands are integrated component by component.
  double const a = Uniform(r, -3, 2);
  double const b = a + Uniform(r, 0.1, 4);
  std::array<double, 3> k;
  for (double& x : k) {
    x = Uniform(r, 0.3, 3);
  }
  SetCase(Str("vector ", a, " ", b));
  Case(Str("vector ", a, " ", b));
  auto const f = [&](Instant const& t) {
    double const x = (t - Instant()) / Second;
    return Velocity<World>({std::cos(k[0] * x) * Metre / Second,
                            std::exp(-k[1] * x) * Metre / Second,
                            (x * x + k[2]) * Metre / Second});
  };
  Instant const t1 = Instant() + a * Second;
  Instant const t2 = Instant() + b * Second;
  std::array<double, 3> const exact = {
      (std::sin(k[0] * b) - std::sin(k[0] * a)) / k[0],
      (std::exp(-k[1] * a) - std::exp(-k[1] * b)) / k[1],
      (b * b * b - a * a * a) / 3 + k[2] * (b - a)};
  Displacement<World> const automatic =
      AutomaticClenshawCurtis(f, t1, t2, 1e-10, std::nullopt);
  Displacement<World> const gauss = GaussLegendre<20>(f, t1, t2);
  double const scale = Displacement<World>({exact[0] * Metre, exact[1] * Metre,
                                            exact[2] * Metre})
                           .Norm() /
                       Metre;
  for (auto const& [v, name] :
       {std::pair(automatic, "automatic"), std::pair(gauss, "Gauss")}) {
    double const error =
        (v - Displacement<World>({exact[0] * Metre, exact[1] * Metre,
                                  exact[2] * Metre}))
            .Norm() /
        Metre;
    Max("vector quadrature error", error / scale);
    VERIF(error <= 1e-9 * scale,
          std::string("vector quadrature: ") + name,
          error << " for " << a << " " << b);
  }
}

void MidpointCase(Rng& r) {
  double const a = Uniform(r, -3, 2);
  double const b = a + Uniform(r, 0.1, 4);
  double const k = Uniform(r, 0.3, 3);
  int const n = Int(r, 1, 200);
  SetCase(Str("midpoint ", Hex(a), " ", Hex(b), " ", Hex(k), " ", n));
  Case(Str("midpoint ", Hex(a), " ", Hex(b), " ", Hex(k), " ", n));
  int evaluations = 0;
  double const linear =
      Midpoint(
          [&](Length const& x) {
            ++evaluations;
            return (k * (x / Metre) + 1) * Newton;
          },
          a * Metre, b * Metre, n) /
      Joule;
  VERIF(evaluations == n, "midpoint: evaluations", evaluations);
  double const exact_linear = k * (b * b - a * a) / 2 + b - a;
  VERIF(std::abs(linear - exact_linear) <= 4 * n * ε * 30, "midpoint: linear",
        linear << " " << exact_linear);
  double const sine =
      Midpoint([&](double const x) { return std::sin(k * x); }, a, b, n);
  double const exact = (std::cos(k * a) - std::cos(k * b)) / k;
  double const h = (b - a) / n;
  VERIF(std::abs(sine - exact) <= (b - a) * h * h * k * k / 24 + 1e-12,
        "midpoint: error", sine << " " << exact);
}

void Heuristics(Rng& r) {
  double const ω = Chance(r, 0.1) ? 0 : std::abs(LogUniform(r, -20, 10));
  double const Δt = std::abs(LogUniform(r, -10, 15));
  int const minimum = Int(r, 1, 1000);
  int const per_period = Int(r, 1, 64);
  auto const points = principia::numerics::_quadrature::
      MaxPointsHeuristicsForAutomaticClenshawCurtis(
          ω * Radian / Second, Δt * Second, minimum, per_period);
  SetCase(Str("heuristics ", Hex(ω), " ", Hex(Δt)));
  Case(Str("heuristics ", Hex(ω), " ", Hex(Δt)));
  VERIF(points.has_value() == (ω != 0), "heuristics: presence", ω);
  if (points.has_value()) {
    double const wanted = per_period * Δt * ω / (2 * π);
    VERIF(*points >= minimum, "heuristics: minimum", *points);
    VERIF(*points <= std::max<double>(minimum, wanted * (1 + 4 * ε)) &&
              *points >= wanted * (1 - 4 * ε) - 1,
          "heuristics: points", *points << " vs " << wanted);
  }
}

template<int... n>
void AllGaussLegendre(Rng& r, std::integer_sequence<int, n...>) {
  (GaussLegendreCase<n + 1>(r), ...);
}

void Quadratures() {
  Rng r = MakeRng("quadratures");
  for (int i = 0; i < N(40); ++i) {
    AllGaussLegendre(r, std::make_integer_sequence<int, 49>());
    ClenshawCurtisCase<2>(r);
    ClenshawCurtisCase<3>(r);
    ClenshawCurtisCase<5>(r);
    ClenshawCurtisCase<9>(r);
    ClenshawCurtisCase<17>(r);
    ClenshawCurtisCase<33>(r);
    ClenshawCurtisCase<65>(r);
    ClenshawCurtisCase<129>(r);
    if (i % 10 == 0) {
      ClenshawCurtisCase<1025>(r);
    }
  }
  for (int i = 0; i < N(120); ++i) {
    Automatic<3>(r);
    Automatic<3>(r);
    Automatic<9>(r);
    Automatic<33>(r);
    VectorQuadrature(r);
    MidpointCase(r);
    Heuristics(r);
  }
}

// ---------------------------------------------------------------------------
// Optimization.

// ½ (x - m)ᵀ Q (x - m) and variations around it; the minimum is `m`.
struct Bowl {
  double q[3][3];
  double m[3];
  double strength;
  int kind;

  double U(double const* const x) const {
    double s = 0;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        s += (x[i] - m[i]) * q[i][j] * (x[j] - m[j]);
      }
    }
    return s / 2;
  }
  double Value(double const* const x) const {
    double const u = U(x);
    switch (kind) {
      case 0:
        return strength * u;
      case 1:
        return strength * (u + u * u);
      case 2:
        return strength * std::sqrt(1 + u);
      default:
        return -strength / (1 + u);
    }
  }
  void Gradient(double const* const x, double* const g) const {
    double const u = U(x);
    double const factor = kind == 0   ? 1
                          : kind == 1 ? 1 + 2 * u
                          : kind == 2 ? 1 / (2 * std::sqrt(1 + u))
                                      : 1 / ((1 + u) * (1 + u));
    for (int i = 0; i < 3; ++i) {
      g[i] = 0;
      for (int j = 0; j < 3; ++j) {
        g[i] += strength * factor * q[i][j] * (x[j] - m[j]);
      }
    }
  }
};

Bowl RandomBowl(Rng& r) {
  Bowl b;
  b.kind = Int(r, 0, 3);
  b.strength = std::exp2(Uniform(r, -10, 10));
  // A rotation by Gram-Schmidt.
  double e[3][3];
  for (;;) {
    for (auto& row : e) {
      for (double& x : row) {
        x = Uniform(r, -1, 1);
      }
    }
    bool ok = true;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < i; ++j) {
        double d = 0;
        for (int k = 0; k < 3; ++k) {
          d += e[i][k] * e[j][k];
        }
        for (int k = 0; k < 3; ++k) {
          e[i][k] -= d * e[j][k];
        }
      }
      double n = 0;
      for (int k = 0; k < 3; ++k) {
        n += e[i][k] * e[i][k];
      }
      n = std::sqrt(n);
      ok = ok && n > 0.1;
      for (int k = 0; k < 3; ++k) {
        e[i][k] /= n;
      }
    }
    if (ok) {
      break;
    }
  }
  for (int i = 0; i < 3; ++i) {
    b.m[i] = Uniform(r, -3, 3);
    for (int j = 0; j < 3; ++j) {
      b.q[i][j] = 0;
    }
  }
  for (int k = 0; k < 3; ++k) {
    double const λ = std::exp2(Uniform(r, b.kind == 3 ? -2 : -4, 2));
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        b.q[i][j] += λ * e[k][i] * e[k][j];
      }
    }
  }
  return b;
}

double CheckMinimum(Bowl const& bowl, double const* const x,
                    double const tolerance, std::string const& what,
                    std::string const& description) {
  double d = 0;
  for (int i = 0; i < 3; ++i) {
    d += (x[i] - bowl.m[i]) * (x[i] - bowl.m[i]);
  }
  d = std::sqrt(d);
  Max("BFGS " + what + " error / tolerance", d / tolerance);
  return d;
}

void Descent(Rng& r) {
  Bowl const bowl = RandomBowl(r);
  double start[3];
  for (double& x : start) {
    x = Uniform(r, -4, 4);
  }
  double const tolerance = std::exp2(Uniform(r, -30, -18));
  std::optional<Length> first_step;
  if (Chance(r, 0.3)) {
    first_step = tolerance * std::exp2(Uniform(r, -3, 6)) * Metre;
  }
  std::string const description =
      Str("bowl ", bowl.kind, " from ", Hex(start[0]), " ", Hex(start[1]), " ",
          Hex(start[2]), " to ", Hex(bowl.m[0]), " tolerance ", tolerance,
          " step ", first_step.value_or(-1 * Metre) / Metre);
  SetCase(description);
  Case(description);
  Watchdog watchdog("BFGS does not terminate", 60);
  int evaluations = 0;
  auto coordinates = [](Displacement<World> const& d, double* const x) {
    auto const& c = d.coordinates();
    x[0] = c.x / Metre;
    x[1] = c.y / Metre;
    x[2] = c.z / Metre;
  };
  // The criterion is the displacement proposed by the approximate Hessian, so
  // the distance may be larger than the tolerance.
  double const allowed = 500 * tolerance + 1e-6;
  // With positions, with or without the directional derivative.
  std::array<double, 3> first;
  for (bool const gateaux : {false, true}) {
    using P = Position<World>;
    principia::numerics::_gradient_descent::internal::Field<Energy, P> const f =
        [&](P const& p) {
          ++evaluations;
          double x[3];
          coordinates(p - World::origin, x);
          return bowl.Value(x) * Joule;
        };
    principia::numerics::_gradient_descent::internal::Field<
        Vector<Quotient<Energy, Length>, World>, P> const grad_f =
        [&](P const& p) {
          double x[3];
          double g[3];
          coordinates(p - World::origin, x);
          bowl.Gradient(x, g);
          return Vector<Quotient<Energy, Length>, World>(
              {g[0] * Newton, g[1] * Newton, g[2] * Newton});
        };
    principia::numerics::_gradient_descent::internal::GateauxDerivative<
        Energy, P> const derivative =
        [&](P const& p, Displacement<World> const& d) {
          return InnerProduct(grad_f(p), d);
        };
    P const start_position =
        World::origin + Displacement<World>({start[0] * Metre,
                                             start[1] * Metre,
                                             start[2] * Metre});
    absl::StatusOr<P> const minimum =
        gateaux ? BroydenFletcherGoldfarbShanno<Energy, P>(
                      start_position, f, grad_f, derivative, tolerance * Metre,
                      Infinity<Length>, first_step)
                : BroydenFletcherGoldfarbShanno<Energy, P>(
                      start_position, f, grad_f, tolerance * Metre,
                      Infinity<Length>, first_step);
    VERIF(minimum.ok(), "BFGS: no minimum", description);
    if (!minimum.ok()) {
      return;
    }
    double x[3];
    coordinates(*minimum - World::origin, x);
    double const d = CheckMinimum(bowl, x, tolerance, "position", description);
    VERIF(d <= allowed, "BFGS: not at the minimum",
          d << " for " << description);
    VERIF(bowl.Value(x) <= bowl.Value(start), "BFGS: climbs", description);
    if (!gateaux) {
      std::copy(x, x + 3, first.begin());
    } else {
      VERIF(std::equal(x, x + 3, first.begin()),
            "BFGS: the directional derivative makes a difference",
            description);
    }
    // The radius of the search.
    double distance = 0;
    double farthest = 0;
    for (int i = 0; i < 3; ++i) {
      distance += (start[i] - bowl.m[i]) * (start[i] - bowl.m[i]);
    }
    distance = std::sqrt(distance);
    double const radius = distance * 0.3;
    if (distance > 1 && tolerance < 0.01) {
      auto const within = BroydenFletcherGoldfarbShanno<Energy, P>(
          start_position, f, grad_f, tolerance * Metre, radius * Metre,
          first_step);
      VERIF(!within.ok() &&
                within.status().code() == termination_condition::NoMinimum,
            "BFGS: finds a minimum beyond the radius",
            within.status() << " " << description);
      Count("minima out of reach");
    }
  }
  // With a plain vector of numbers.
  {
    using V = FixedVector<double, 3>;
    principia::numerics::_gradient_descent::internal::Field<double, V> const f =
        [&](V const& v) {
          double const x[3] = {v[0], v[1], v[2]};
          return bowl.Value(x);
        };
    principia::numerics::_gradient_descent::internal::Field<V, V> const grad_f =
        [&](V const& v) {
          double const x[3] = {v[0], v[1], v[2]};
          double g[3];
          bowl.Gradient(x, g);
          return V({g[0], g[1], g[2]});
        };
    auto const minimum = BroydenFletcherGoldfarbShanno<double, V>(
        V({start[0], start[1], start[2]}), f, grad_f, tolerance);
    VERIF(minimum.ok(), "BFGS: no minimum (vector)", description);
    if (minimum.ok()) {
      double const x[3] = {(*minimum)[0], (*minimum)[1], (*minimum)[2]};
      double const d = CheckMinimum(bowl, x, tolerance, "vector", description);
      VERIF(d <= allowed, "BFGS: not at the minimum (vector)",
            d << " for " << description);
    }
    // Started at the minimum, it stays there.
    auto const still = BroydenFletcherGoldfarbShanno<double, V>(
        V({bowl.m[0], bowl.m[1], bowl.m[2]}), f, grad_f, tolerance);
    VERIF(still.ok() && (*still)[0] == bowl.m[0] &&
              (*still)[1] == bowl.m[1] && (*still)[2] == bowl.m[2],
          "BFGS: leaves a stationary point", description);
  }
}

// A function that decreases forever has no minimum within any radius.
void Endless(Rng& r) {
  int const kind = Int(r, 0, 2);
  double const radius = std::exp2(Uniform(r, -3, 10));
  double const tolerance = std::exp2(Uniform(r, -20, -6));
  double const slope = std::exp2(Uniform(r, -3, 3));
  std::string const description =
      Str("endless ", kind, " radius ", radius, " tolerance ", tolerance);
  SetCase(description);
  Case(description);
  Watchdog watchdog("BFGS: endless descent", 20);
  using V = FixedVector<double, 3>;
  principia::numerics::_gradient_descent::internal::Field<double, V> const f =
      [&](V const& v) {
        switch (kind) {
          case 0:
            return -slope * v[0];
          case 1:
            return -slope * v[0] * v[0] + 0.1 * v[1] * v[1];
          default:
            return std::sqrt(1 + v[0] * v[0]) - (1 + slope) * v[0];
        }
      };
  principia::numerics::_gradient_descent::internal::Field<V, V> const grad_f =
      [&](V const& v) {
        switch (kind) {
          case 0:
            return V({-slope, 0, 0});
          case 1:
            return V({-2 * slope * v[0], 0.2 * v[1], 0});
          default:
            return V({v[0] / std::sqrt(1 + v[0] * v[0]) - (1 + slope), 0, 0});
        }
      };
  auto const minimum = BroydenFletcherGoldfarbShanno<double, V>(
      V({0.5, 0.25, 0}), f, grad_f, tolerance, radius);
  VERIF(!minimum.ok() &&
            minimum.status().code() == termination_condition::NoMinimum,
        "BFGS: minimum of an endless descent", description);
}

std::int64_t sought = 0;
std::int64_t missed = 0;

// Wells in a box, each with its own minimum.
template<int dimensions>
void Global(Rng& r, bool const bayesian) {
  using Optimizer =
      MultiLevelSingleLinkage<double, Displacement<World>, dimensions>;
  int const wells = Int(r, 1, 3);
  double const half = std::exp2(Uniform(r, -3, 6));
  double const centre[3] = {Uniform(r, -5, 5) * half, Uniform(r, -5, 5) * half,
                            Uniform(r, -5, 5) * half};
  std::vector<std::array<double, 3>> at;
  for (int tries = 0; static_cast<int>(at.size()) < wells; ++tries) {
    std::array<double, 3> x = {0, 0, 0};
    for (int i = 0; i < dimensions; ++i) {
      x[i] = Uniform(r, -0.75, 0.75);
    }
    bool ok = true;
    for (auto const& y : at) {
      double d = 0;
      for (int i = 0; i < 3; ++i) {
        d += (x[i] - y[i]) * (x[i] - y[i]);
      }
      ok = ok && std::sqrt(d) > (dimensions == 1 ? 0.4 : 0.7);
    }
    if (ok) {
      at.push_back(x);
    }
    if (tries > 1000) {
      break;
    }
  }
  std::vector<double> depth;
  double const sharpness = 2 / (0.15 * 0.15) / 2;
  for (std::size_t i = 0; i < at.size(); ++i) {
    depth.push_back(Uniform(r, 0.5, 2));
  }
  // In the unit box: the sum of the wells, and a weak bowl that makes every
  // local descent converge.
  auto value = [&](double const* const x) {
    double v = 0;
    for (std::size_t w = 0; w < at.size(); ++w) {
      double d = 0;
      for (int i = 0; i < 3; ++i) {
        d += (x[i] - at[w][i]) * (x[i] - at[w][i]);
      }
      v -= depth[w] / (1 + sharpness * d);
    }
    return v;
  };
  auto gradient = [&](double const* const x, double* const g) {
    for (int i = 0; i < 3; ++i) {
      g[i] = 0;
    }
    for (std::size_t w = 0; w < at.size(); ++w) {
      double d = 0;
      for (int i = 0; i < 3; ++i) {
        d += (x[i] - at[w][i]) * (x[i] - at[w][i]);
      }
      double const denominator = 1 + sharpness * d;
      for (int i = 0; i < 3; ++i) {
        g[i] += 2 * depth[w] * sharpness * (x[i] - at[w][i]) /
                (denominator * denominator);
      }
    }
  };
  // The true minima, by a plain descent from the wells.
  std::vector<std::array<double, 3>> minima;
  for (auto const& y : at) {
    std::array<double, 3> x = y;
    double step = 0.01;
    for (int i = 0; i < 20000 && step > 1e-14; ++i) {
      double g[3];
      gradient(x.data(), g);
      std::array<double, 3> next;
      for (int j = 0; j < 3; ++j) {
        next[j] = x[j] - step * g[j] / sharpness;
      }
      if (value(next.data()) < value(x.data())) {
        x = next;
        step *= 1.5;
      } else {
        step /= 2;
      }
    }
    bool known = false;
    for (auto const& z : minima) {
      known = known || std::abs(z[0] - x[0]) + std::abs(z[1] - x[1]) +
                               std::abs(z[2] - x[2]) < 1e-3;
    }
    if (!known) {
      minima.push_back(x);
    }
  }
  std::string const description =
      Str("wells ", at.size(), " in ", dimensions, " half ", Hex(half), " at ",
          Hex(at[0][0]), " ", Hex(at[0][1]), bayesian ? " Bayesian" : "");
  SetCase(description);
  Case(description);
  Watchdog watchdog("MLSL does not terminate", 120);

  bool maximize = false;
  std::int64_t evaluations = 0;
  bool outside = false;
  auto unit = [&](Displacement<World> const& d, double* const x) {
    auto const& c = d.coordinates();
    x[0] = (c.x / Metre - centre[0]) / half;
    x[1] = (c.y / Metre - centre[1]) / half;
    x[2] = (c.z / Metre - centre[2]) / half;
  };
  principia::numerics::_global_optimization::internal::Field<
      double, Displacement<World>> const f =
      [&](Displacement<World> const& d) {
        ++evaluations;
        double x[3];
        unit(d, x);
        return (maximize ? -1 : 1) * value(x);
      };
  principia::numerics::_global_optimization::internal::Field<
      Vector<Inverse<Length>, World>, Displacement<World>> const grad_f =
      [&](Displacement<World> const& d) {
        double x[3];
        double g[3];
        unit(d, x);
        gradient(x, g);
        for (double& y : g) {
          y = (maximize ? -1 : 1) * y / half;
        }
        return Vector<Inverse<Length>, World>(
            {g[0] / Metre, g[1] / Metre, g[2] / Metre});
      };
  typename Optimizer::Box box;
  box.centre = Displacement<World>(
      {centre[0] * Metre, centre[1] * Metre, centre[2] * Metre});
  for (int i = 0; i < dimensions; ++i) {
    box.vertices[i] = Displacement<World>({(i == 0 ? half : 0) * Metre,
                                           (i == 1 ? half : 0) * Metre,
                                           (i == 2 ? half : 0) * Metre});
  }
  Length const tolerance = 1e-5 * half * Metre;
  auto find = [&](std::vector<Displacement<World>> const& found,
                  std::string const& what) {
    std::vector<bool> seen(minima.size());
    for (auto const& d : found) {
      double x[3];
      unit(d, x);
      double best = 1e9;
      for (std::size_t i = 0; i < minima.size(); ++i) {
        double distance = 0;
        for (int j = 0; j < 3; ++j) {
          distance += (x[j] - minima[i][j]) * (x[j] - minima[i][j]);
        }
        distance = std::sqrt(distance);
        if (distance < best) {
          best = distance;
        }
        if (distance < 1e-3) {
          seen[i] = true;
        }
      }
      Max("MLSL error", best);
      VERIF(best <= 1e-3, "MLSL: not an extremum",
            best << " " << what << " for " << description);
    }
    for (std::size_t i = 0; i < found.size(); ++i) {
      for (std::size_t j = 0; j < i; ++j) {
        VERIF((found[i] - found[j]).Norm() > 2 * tolerance,
              "MLSL: the same extremum twice", what << " " << description);
      }
    }
    // The method is stochastic: it is only sure to find all of the extrema
    // after many rounds.
    sought += seen.size();
    for (bool const b : seen) {
      if (!b) {
        ++missed;
        Sample("missed: " + what + " " + description);
      }
    }
  };
  {
    Optimizer optimizer(box, f, grad_f);
    find(bayesian
             ? optimizer.FindGlobalMinima(200, std::nullopt, tolerance)
             : optimizer.FindGlobalMinima(100, 8, tolerance),
         "minima");
  }
  {
    maximize = true;
    Optimizer optimizer(box, f, grad_f);
    find(bayesian
             ? optimizer.FindGlobalMaxima(200, std::nullopt, tolerance)
             : optimizer.FindGlobalMaxima(100, 8, tolerance),
         "maxima");
  }
  Max("MLSL evaluations", evaluations);
}

void Optimization() {
  Rng r = MakeRng("optimization");
  for (int i = 0; i < N(400); ++i) {
    Descent(r);
  }
  for (int i = 0; i < N(20); ++i) {
    Endless(r);
  }
  for (int i = 0; i < N(8); ++i) {
    for (bool const bayesian : {false, true}) {
      Global<1>(r, bayesian);
      Global<2>(r, bayesian);
      Global<3>(r, bayesian);
    }
  }
  Count("extrema sought", sought);
  Count("extrema missed", missed);
  VERIF(missed <= 3 + sought / 50, "MLSL: misses extrema",
        missed << " of " << sought);
}

void Body() {
  if (Selected("roots")) {
    Roots();
  }
  if (Selected("quadratures")) {
    Quadratures();
  }
  if (Selected("optimization")) {
    Optimization();
  }
}

}  // namespace verif

VERIF_MAIN(verif::Body)
