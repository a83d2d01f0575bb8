// C05: error-free transformations, double-double arithmetic, floating-point
// utilities and angle reduction, against exact arithmetic.
#include <cmath>
#include <limits>

#include "boost/multiprecision/cpp_bin_float.hpp"
#include "boost/multiprecision/cpp_int.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/r3_element.hpp"
#include "numerics/angle_reduction.hpp"
#include "numerics/double_precision.hpp"
#include "numerics/elementary_functions.hpp"
#include "numerics/fma.hpp"
#include "numerics/log_b.hpp"
#include "numerics/next.hpp"
#include "numerics/scale_b.hpp"
#include "numerics/ulp_distance.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "verif.hpp"

using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_r3_element;
using namespace principia::numerics::_angle_reduction;
using namespace principia::numerics::_double_precision;
using namespace principia::numerics::_fma;
using namespace principia::numerics::_log_b;
using namespace principia::numerics::_scale_b;
using namespace principia::numerics::_ulp_distance;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace verif;
namespace ef = principia::numerics::_elementary_functions;
namespace mp = boost::multiprecision;

namespace {

using Big = mp::number<mp::cpp_bin_float<2400, mp::digit_base_2>, mp::et_off>;
using World = Frame<struct WorldTag>;

#if PRINCIPIA_REQUIRES_FMA
char const leg[] = ":fma";
#else
char const leg[] = "";
#endif

double const inf = std::numeric_limits<double>::infinity();
Big const u = ldexp(Big(1), -53);

std::string Hex(double const x) {
  char b[64];
  std::snprintf(b, sizeof(b), "%a", x);
  return b;
}

std::string Hex(DoublePrecision<double> const& x) {
  return Hex(x.value) + "|" + Hex(x.error);
}

Big Exact(double const x) { return Big(x); }
Big Exact(DoublePrecision<double> const& x) {
  return Big(x.value) + Big(x.error);
}

// A double with interesting bit patterns: few bits, runs of ones, near powers
// of two.
double Interesting(Rng& r, int const e_min, int const e_max) {
  std::uint64_t m = r() & 0xFFFFFFFFFFFFFull;
  switch (Int(r, 0, 6)) {
    case 0:
      m = 0;
      break;
    case 1:
      m = 0xFFFFFFFFFFFFFull;
      break;
    case 2:
      m = (1ull << Int(r, 0, 51)) | (1ull << Int(r, 0, 51));
      break;
    case 3:
      m &= ~((1ull << Int(r, 0, 51)) - 1);
      break;
    case 4:
      m |= (1ull << Int(r, 0, 51)) - 1;
      break;
    default:
      break;
  }
  double const x = std::ldexp(1 + m * 0x1p-52,
                              static_cast<int>(Int(r, e_min, e_max)));
  return Chance(r, 0.5) ? x : -x;
}

DoublePrecision<double> RandomDD(Rng& r, int const e_min, int const e_max) {
  DoublePrecision<double> result(Interesting(r, e_min, e_max));
  int const gap = static_cast<int>(Chance(r, 0.5) ? Int(r, 54, 56)
                                                  : Int(r, 54, 110));
  double e = std::ldexp(Interesting(r, 0, 0), std::ilogb(result.value) - gap);
  if (Chance(r, 0.1)) {
    e = 0;
  }
  // Normalize.
  double const v = result.value + e;
  result.error = e - (v - result.value);
  result.value = v;
  return result;
}

bool Normalized(DoublePrecision<double> const& x) {
  return x.value + x.error == x.value;
}

void CheckRelative(std::string const& what,
                   DoublePrecision<double> const& actual,
                   Big const& exact,
                   double const bound,
                   std::string const& arguments) {
  Big const error = abs(Exact(actual) - exact);
  if (exact == 0) {
    VERIF(error == 0, what + leg, arguments << " → " << Hex(actual)
                                            << ", exact 0");
    return;
  }
  double const relative = static_cast<double>(error / abs(exact) / (u * u));
  Max(what + " error (u²)", relative);
  VERIF(relative <= bound, what + leg,
        arguments << " → " << Hex(actual) << ", relative error " << relative
                  << " u²");
  VERIF(Normalized(actual), what + ":normalization" + leg,
        arguments << " → " << Hex(actual));
}

void Transformations() {
  auto r = MakeRng("eft");
  for (std::int64_t i = 0; i < N(60'000); ++i) {
    // A wide range of exponents for a few, so that the operations are also
    // tried next to the bounds of the format.
    bool const wide = Chance(r, 0.1);
    int const range = wide ? 1020 : 60;
    double const a = Chance(r, 0.01) ? 0 : Interesting(r, -range, range);
    double b = Chance(r, 0.01) ? 0 : Interesting(r, -range, range);
    if (Chance(r, 0.3) && a != 0) {
      // Massive cancellation, or overlap by a few bits.
      b = std::ldexp(Interesting(r, 0, 0),
                     std::min(1020, std::ilogb(a) +
                                        static_cast<int>(Int(r, -55, 55))));
    }
    CaseHash(Bits(a) * 31 + Bits(b));
    std::string const ab = Hex(a) + " " + Hex(b);
    SetCase(ab);
    {
      auto const s = TwoSum(a, b);
      VERIF(s.value == a + b && Exact(s) == Exact(a) + Exact(b),
            Str("TwoSum", leg), ab << " → " << Hex(s));
      auto const d = TwoDifference(a, b);
      VERIF(d.value == a - b && Exact(d) == Exact(a) - Exact(b),
            Str("TwoDifference", leg), ab << " → " << Hex(d));
      double const x = std::abs(a) >= std::abs(b) ? a : b;
      double const y = std::abs(a) >= std::abs(b) ? b : a;
      auto const qs = QuickTwoSum(x, y);
      VERIF(qs.value == a + b && Exact(qs) == Exact(a) + Exact(b),
            Str("QuickTwoSum", leg), ab << " → " << Hex(qs));
      auto const qd = QuickTwoDifference(x, y);
      VERIF(qd.value == x - y && Exact(qd) == Exact(x) - Exact(y),
            Str("QuickTwoDifference", leg), ab << " → " << Hex(qd));
      // Compensated summation.
      DoublePrecision<double> c(x);
      c.Increment(y);
      VERIF(c.value == a + b && Exact(c) == Exact(a) + Exact(b),
            Str("Increment", leg), ab << " → " << Hex(c));
      c = DoublePrecision<double>(x);
      c.Decrement(y);
      VERIF(c.value == x - y && Exact(c) == Exact(x) - Exact(y),
            Str("Decrement", leg), ab << " → " << Hex(c));
    }
    // Quantities, points and vectors: the same thing, coordinatewise.
    {
      auto const s = TwoSum(a * Metre, b * Metre);
      auto const s0 = TwoSum(a, b);
      VERIF(s.value == s0.value * Metre && s.error == s0.error * Metre,
            Str("TwoSum:quantity", leg), ab);
      Instant const t0;
      auto const t = TwoSum(t0 + a * Second, b * Second);
      VERIF(t.value == t0 + s0.value * Second && t.error == s0.error * Second,
            Str("TwoSum:instant", leg), ab);
      auto const td = TwoDifference(t0 + a * Second, t0 + b * Second);
      auto const d0 = TwoDifference(a, b);
      VERIF(td.value == d0.value * Second && td.error == d0.error * Second,
            Str("TwoDifference:instants", leg), ab);
      auto const tv = TwoDifference(t0 + a * Second, b * Second);
      VERIF(tv.value == t0 + d0.value * Second && tv.error == d0.error * Second,
            Str("TwoDifference:instant", leg), ab);
      double const c = Interesting(r, -range, range);
      Vector<Length, World> const va({a * Metre, b * Metre, c * Metre});
      Vector<Length, World> const vb({c * Metre, a * Metre, b * Metre});
      auto const v = TwoSum(va, vb);
      auto const w = TwoDifference(va, vb);
      for (int k = 0; k < 3; ++k) {
        double const x = va.coordinates()[k] / Metre;
        double const y = vb.coordinates()[k] / Metre;
        VERIF(Exact(v.value.coordinates()[k] / Metre) +
                      Exact(v.error.coordinates()[k] / Metre) ==
                  Exact(x) + Exact(y),
              Str("TwoSum:vector", leg), Hex(x) << " " << Hex(y));
        VERIF(Exact(w.value.coordinates()[k] / Metre) +
                      Exact(w.error.coordinates()[k] / Metre) ==
                  Exact(x) - Exact(y),
              Str("TwoDifference:vector", leg), Hex(x) << " " << Hex(y));
      }
    }
    // Products, away from overflow and underflow.
    double const p = Interesting(r, -400, 400);
    double const q = Interesting(r, -400, 400);
    std::string const pq = Hex(p) + " " + Hex(q);
    SetCase(pq);
    {
      auto const z = TwoProduct<FMAPresence::Unknown>(p, q);
      VERIF(z.value == p * q && Exact(z) == Exact(p) * Exact(q),
            Str("TwoProduct", leg), pq << " → " << Hex(z));
      auto const a = TwoProduct<FMAPresence::Absent>(p, q);
      VERIF(a.value == p * q && Exact(a) == Exact(p) * Exact(q),
            Str("TwoProduct:absent", leg), pq << " → " << Hex(a));
      auto const v = VeltkampDekkerProduct(p, q);
      VERIF(v.value == p * q && Exact(v) == Exact(p) * Exact(q),
            Str("VeltkampDekkerProduct", leg), pq << " → " << Hex(v));
      auto const zq = TwoProduct<FMAPresence::Unknown>(p * Metre, q * Second);
      VERIF(zq.value == z.value * (Metre * Second) &&
                zq.error == z.error * (Metre * Second),
            Str("TwoProduct:quantity", leg), pq);
      double xh, xl;
      VeltkampSplitting<27>(p, xh, xl);
      int e;
      double const m = std::ldexp(std::frexp(xh, &e), 26);
      double const ml =
          xl == 0 ? 0 : std::ldexp(xl, -(std::ilogb(p) - 52));
      VERIF(xh + xl == p && m == std::floor(m) &&
                std::abs(ml) <= 0x1p26 && ml == std::floor(ml),
            Str("VeltkampSplitting", leg), Hex(p) << " " << Hex(xh) << " "
                                                  << Hex(xl));
    }
#if PRINCIPIA_REQUIRES_FMA
    {
      double const z = Chance(r, 0.5) ? std::ldexp(
          Interesting(r, 0, 0), std::ilogb(p * q) +
                                    static_cast<int>(Int(r, -60, 60)))
                                      : Interesting(r, -400, 400);
      VERIF(FusedMultiplyAdd(p, q, z) == std::fma(p, q, z), "fma",
            pq << " " << Hex(z));
      VERIF(FusedMultiplySubtract(p, q, z) == std::fma(p, q, -z), "fms",
            pq << " " << Hex(z));
      VERIF(FusedNegatedMultiplyAdd(p, q, z) == std::fma(-p, q, z), "fnma",
            pq << " " << Hex(z));
      VERIF(FusedNegatedMultiplySubtract(p, q, z) == std::fma(-p, q, -z),
            "fnms", pq << " " << Hex(z));
      VERIF(ef::FusedMultiplyAdd(p * Metre, q * Second, z * Metre * Second) ==
                std::fma(p, q, z) * Metre * Second,
            "fma:quantity", pq << " " << Hex(z));
      VERIF(ef::FusedMultiplySubtract(p * Metre, q * Second,
                                      z * Metre * Second) ==
                std::fma(p, q, -z) * Metre * Second,
            "fms:quantity", pq << " " << Hex(z));
      VERIF(ef::FusedNegatedMultiplyAdd(p * Metre, q * Second,
                                        z * Metre * Second) ==
                std::fma(-p, q, z) * Metre * Second,
            "fnma:quantity", pq << " " << Hex(z));
      VERIF(ef::FusedNegatedMultiplySubtract(p * Metre, q * Second,
                                             z * Metre * Second) ==
                std::fma(-p, q, -z) * Metre * Second,
            "fnms:quantity", pq << " " << Hex(z));
    }
#endif
  }
}

void Arithmetic() {
  auto r = MakeRng("dd");
  for (std::int64_t i = 0; i < N(40'000); ++i) {
    auto const a = RandomDD(r, -100, 100);
    auto b = RandomDD(r, -100, 100);
    if (Chance(r, 0.5)) {
      int const e = std::ilogb(a.value);
      b = RandomDD(r, e - 60, e + 60);
      if (Chance(r, 0.3)) {
        // Cancellation of most of the bits.
        b = -a;
        b.value = std::nextafter(b.value, Chance(r, 0.5) ? inf : -inf);
        if (!Normalized(b)) {
          b.error = 0;
        }
      }
    }
    double const x = Interesting(r, std::ilogb(a.value) - 60,
                                 std::ilogb(a.value) + 60);
    std::string const ab = Hex(a) + " " + Hex(b);
    std::string const ax = Hex(a) + " " + Hex(x);
    CaseHash(Bits(a.value) * 31 + Bits(b.value) * 7 + Bits(x));
    SetCase(ab + " " + Hex(x));
    CheckRelative("dd+dd", a + b, Exact(a) + Exact(b), 3.01, ab);
    CheckRelative("dd-dd", a - b, Exact(a) - Exact(b), 3.01, ab);
    CheckRelative("dd+d", a + x, Exact(a) + Exact(x), 2.01, ax);
    CheckRelative("d+dd", x + a, Exact(a) + Exact(x), 2.01, ax);
    CheckRelative("dd-d", a - x, Exact(a) - Exact(x), 2.01, ax);
    CheckRelative("d-dd", x - a, Exact(x) - Exact(a), 2.01, ax);
    CheckRelative("dd*dd", a * b, Exact(a) * Exact(b), 12, ab);
    CheckRelative("dd*d", a * x, Exact(a) * Exact(x), 4, ax);
    CheckRelative("d*dd", x * a, Exact(a) * Exact(x), 4, ax);
    CheckRelative("dd/dd", a / b, Exact(a) / Exact(b), 16, ab);
    CheckRelative("dd/d", a / x, Exact(a) / Exact(x), 12, ax);
    CheckRelative("d/dd", x / a, Exact(x) / Exact(a), 16, ax);
    auto c = a;
    c += b;
    VERIF(c == a + b, Str("+=", leg), ab);
    c = a;
    c -= b;
    VERIF(c == a - b, Str("-=", leg), ab);
    c = a;
    c *= b;
    VERIF(c == a * b, Str("*=", leg), ab);
    c = a;
    c /= b;
    VERIF(c == a / b, Str("/=", leg), ab);
    c = a;
    c += x;
    VERIF(c == a + x, Str("+=:double", leg), ax);
    c = a;
    c -= x;
    VERIF(c == a - x, Str("-=:double", leg), ax);
    VERIF(Exact(-a) == -Exact(a), Str("unary -", leg), ab);
    VERIF(+a == a, Str("unary +", leg), ab);
    VERIF((a < b) == (Exact(a) < Exact(b)) && (a == b) == (Exact(a) == Exact(b))
              && (a >= b) == (Exact(a) >= Exact(b)),
          Str("comparison", leg), ab);
    double const scale = std::ldexp(Chance(r, 0.5) ? 1 : -1,
                                    static_cast<int>(Int(r, -30, 30)));
    VERIF(Exact(Scale(scale, a)) == Exact(scale) * Exact(a), Str("Scale", leg),
          Hex(scale) << " " << Hex(a));

    // Integral and fractional parts.
    auto const f = RandomDD(r, -10, 110);
    SetCase(Hex(f));
    Big const exact = Exact(f);
    Big const expected = trunc(exact);
    auto const trunc_f = Trunc(f);
    VERIF(Exact(trunc_f) == expected, Str("Trunc", leg),
          Hex(f) << " → " << Hex(trunc_f) << " instead of "
                 << static_cast<double>(expected));
    auto const frac = Frac(f);
    VERIF(abs(Exact(frac) - (exact - expected)) <=
              ldexp(Big(1), -104) * (exact == expected ? 1 : abs(exact - expected)),
          Str("Frac", leg), Hex(f) << " → " << Hex(frac));

    // Serialization preserves all the bits, for all the types of values.
    principia::serialization::DoublePrecision message;
    a.WriteToMessage(&message);
    VERIF(DoublePrecision<double>::ReadFromMessage(message) == a,
          Str("serialization", leg), Hex(a));
    DoublePrecision<Instant> t(Instant() + a.value * Second);
    t.error = a.error * Second;
    message.Clear();
    t.WriteToMessage(&message);
    auto const t2 = DoublePrecision<Instant>::ReadFromMessage(message);
    VERIF(t2.value == t.value && t2.error == t.error,
          Str("serialization:instant", leg), Hex(a));
    DoublePrecision<Length> l(b.value * Metre);
    l.error = b.error * Metre;
    message.Clear();
    l.WriteToMessage(&message);
    VERIF(DoublePrecision<Length>::ReadFromMessage(message) == l,
          Str("serialization:length", leg), Hex(b));

    // Accumulation: the error of a compensated sum does not grow with the
    // number of terms.
    if (i % 100 == 0) {
      DoublePrecision<double> sum;
      DoublePrecision<Instant> clock;
      Big exact_sum = 0;
      double biggest = 0;
      std::int64_t const n = Int(r, 2, 2000);
      for (std::int64_t k = 0; k < n; ++k) {
        double const step = Interesting(r, -30, 0);
        sum += step;
        clock += step * Second;
        exact_sum += Big(step);
        biggest = std::max(biggest, std::abs(sum.value) + std::abs(step));
      }
      VERIF(abs(Exact(sum) - exact_sum) <= u * u * 4 * n * biggest,
            Str("accumulation", leg), n << " terms");
      VERIF(clock.value == Instant() + sum.value * Second &&
                clock.error == sum.error * Second,
            Str("accumulation:instant", leg), n << " terms");
    }
  }
}

double AnyDouble(Rng& r) {
  if (Chance(r, 0.1)) {
    double const specials[] = {
        0.0, -0.0, inf, -inf, 1, -1, 2, -2, 0x1p-1022, -0x1p-1022, 0x1p-1074,
        -0x1p-1074, std::numeric_limits<double>::max(),
        std::numeric_limits<double>::lowest(), 0x1.FFFFFFFFFFFFFp-1,
        -0x1.FFFFFFFFFFFFFp-1, 0x0.FFFFFFFFFFFFFp-1022,
        -0x0.FFFFFFFFFFFFFp-1022, std::nan("")};
    return specials[r() % std::size(specials)];
  }
  if (Chance(r, 0.3)) {
    // A power of 2, perhaps.
    std::uint64_t b = r() & 0xFFF0000000000000ull;
    b += static_cast<std::uint64_t>(Int(r, -1, 1));
    return Bits(b);
  }
  return Bits(r());
}

bool Identical(double const a, double const b) {
  return Bits(a) == Bits(b) || (a != a && b != b);
}

// The position of `x` among the doubles.
__int128 Index(double const x) {
  std::int64_t const b = static_cast<std::int64_t>(Bits(std::abs(x)));
  return std::signbit(x) ? -static_cast<__int128>(b) : b;
}

void Utilities() {
  auto r = MakeRng("utilities");
  for (std::int64_t i = 0; i < N(20'000); ++i) {
    double const x = AnyDouble(r);
    double const y = Chance(r, 0.5)
                         ? AnyDouble(r)
                         : Bits(Bits(x) + static_cast<std::uint64_t>(
                                              Int(r, -100, 100)));
    CaseHash(Bits(x) * 3 + Bits(y));
    SetCase(Hex(x) + " " + Hex(y));
    {
      double up = std::nextafter(x, inf);
      double down = std::nextafter(x, -inf);
      if (x == -0x1p-1074) up = -0.0;
      if (x == 0x1p-1074) down = 0.0;
      VERIF(Identical(principia::numerics::_next::NextUp(x), up),
            Str("NextUp", leg), Hex(x));
      VERIF(Identical(principia::numerics::_next::NextDown(x), down),
            Str("NextDown", leg), Hex(x));
      VERIF(Identical(ef::NextUp(x * Metre) / Metre, up), Str("NextUp:q", leg),
            Hex(x));
      VERIF(Identical(ef::NextDown(x * Metre) / Metre, down),
            Str("NextDown:q", leg), Hex(x));
      float const f = static_cast<float>(std::abs(x) < 1e38 ? x : 1.5);
      if (std::abs(f) > 0x1p-149f) {
        VERIF(principia::numerics::_next::NextUp(f) ==
                  std::nextafter(f, std::numeric_limits<float>::infinity()),
              Str("NextUp:float", leg), f);
      }
    }
    VERIF(Identical(LogB(x), std::logb(x)), Str("LogB", leg),
          Hex(x) << " → " << LogB(x));
    {
      int n = static_cast<int>(Int(r, -2200, 2200));
      if (Chance(r, 0.5) && std::isfinite(x) && x != 0) {
        // End among the subnormals or near overflow.
        n = static_cast<int>(
            (Chance(r, 0.8) ? Int(r, -1080, -1015) : Int(r, 1018, 1026)) -
            std::ilogb(x));
      }
      VERIF(Identical(ScaleB(x, n), std::scalbn(x, n)), Str("ScaleB", leg),
            Hex(x) << " " << n << " → " << Hex(ScaleB(x, n)) << " instead of "
                   << Hex(std::scalbn(x, n)));
    }
    if (x == x && y == y) {
      __int128 distance = Index(x) - Index(y);
      distance = distance < 0 ? -distance : distance;
      if (distance > std::numeric_limits<std::int64_t>::max()) {
        distance = std::numeric_limits<std::int64_t>::max();
      }
      VERIF(ULPDistance(x, y) == static_cast<std::int64_t>(distance),
            Str("ULPDistance", leg), Hex(x) << " " << Hex(y) << " → "
                                            << ULPDistance(x, y));
    }
    if (x >= 0 && std::isfinite(x)) {
      VERIF(Identical(ef::Sqrt(x), std::sqrt(x)), Str("Sqrt", leg), Hex(x));
      VERIF(Identical(ef::Sqrt(x * ef::Pow<2>(Metre)) / Metre, std::sqrt(x)),
            Str("Sqrt:quantity", leg), Hex(x));
    }
    if (x == x) {
      VERIF(Identical(ef::Abs(x * Metre) / Metre, std::abs(x)),
            Str("Abs", leg), Hex(x));
      VERIF(Identical(ef::Round(x), std::round(x)), Str("Round", leg), Hex(x));
    }
    // Powers.
    {
      double const b = Interesting(r, -25, 25);
      auto check = [&](auto const tag) {
        constexpr int n = decltype(tag)::value;
        Big exact = 1;
        for (int k = 0; k < std::abs(n); ++k) {
          exact *= Big(b);
        }
        if (n < 0) {
          exact = 1 / exact;
        }
        Big const error =
            abs(Big(ef::Pow<n>(b)) - exact) / abs(exact) / u;
        VERIF(error <= std::abs(n) + 1, Str("Pow", leg), Hex(b) << "^" << n);
        Big const q_error =
            abs(Big(ef::Pow<n>(b * Metre) / ef::Pow<n>(Metre)) - exact) /
            abs(exact) / u;
        VERIF(q_error <= std::abs(n) + 1, Str("Pow:quantity", leg),
              Hex(b) << "^" << n);
      };
      check(std::integral_constant<int, 1>());
      check(std::integral_constant<int, 2>());
      check(std::integral_constant<int, 3>());
      check(std::integral_constant<int, 5>());
      check(std::integral_constant<int, 6>());
      check(std::integral_constant<int, 7>());
      check(std::integral_constant<int, 11>());
      check(std::integral_constant<int, 16>());
      check(std::integral_constant<int, 31>());
      check(std::integral_constant<int, -1>());
      check(std::integral_constant<int, -2>());
      check(std::integral_constant<int, -3>());
      check(std::integral_constant<int, -7>());
      VERIF(ef::Pow<0>(b) == 1, Str("Pow:0", leg), Hex(b));
      double const positive = std::abs(b);
      for (int n = 2; n <= 9; ++n) {
        double const root = ef::Root(n, positive);
        Big const power = pow(Big(root), n);
        VERIF(abs(power - Big(positive)) <= Big(positive) * u * (n + 60),
              Str("Root", leg), n << " " << Hex(positive));
      }
      VERIF(ef::Root<4>(positive * ef::Pow<4>(Metre)) / Metre ==
                ef::Root(4, positive),
            Str("Root:quantity", leg), Hex(positive));
      double const modulus = std::abs(Interesting(r, -10, 10));
      VERIF(Identical(ef::FMod(b * Metre, modulus * Metre) / Metre,
                      std::fmod(b, modulus)),
            Str("FMod", leg), Hex(b) << " " << Hex(modulus));
    }
    // Rounding of rationals.
    {
      std::int64_t const d = Int(r, 1, 1'000'000'000);
      std::int64_t const n = Int(r, -1'000'000'000'000, 1'000'000'000'000);
      mp::cpp_rational const q(n, d);
      // Half away from 0.
      __int128 const twice = 2 * static_cast<__int128>(n < 0 ? -n : n) + d;
      std::int64_t expected = static_cast<std::int64_t>(twice / (2 * d));
      expected = n < 0 ? -expected : expected;
      VERIF(ef::Round(q) == expected, Str("Round:rational", leg), n << "/" << d);
      std::int64_t const h = Int(r, -1000, 1000);
      VERIF(ef::Round(mp::cpp_rational(2 * h + 1, 2)) == (h >= 0 ? h + 1 : h),
            Str("Round:half", leg), h);
    }
  }
}

// The reduction modulo 2π of `x`, in [-π, π].
Big const& Pi() {
  static Big const pi = acos(Big(-1));
  return pi;
}

// The distance of `x` to the closest multiple of `period`.
Big DistanceToMultiple(Big const& x, Big const& period) {
  Big const n = round(x / period);
  return abs(x - n * period);
}

void Reduction() {
  auto r = MakeRng("reduction");
  using principia::quantities::_si::Radian;
  constexpr double π = 0x1.921FB54442D18p1;
  constexpr double π_up = 0x1.921FB54442D19p1;
  Big const pi = Pi();
  for (std::int64_t i = 0; i < N(4'000); ++i) {
    double θ;
    switch (Int(r, 0, 4)) {
      case 0:
        θ = LogUniform(r, -60, 3);
        break;
      case 1:
        θ = LogUniform(r, 0, 30);
        break;
      case 2:
        θ = LogUniform(r, -20, 900);
        break;
      case 3: {
        // Near a multiple of π/2 or π/4.
        double const n = static_cast<double>(Int(r, -100'000'000, 100'000'000));
        θ = n * (π / 4);
        for (std::int64_t k = Int(r, -2, 2); k != 0; k += k < 0 ? 1 : -1) {
          θ = std::nextafter(θ, k < 0 ? -inf : inf);
        }
        break;
      }
      default:
        θ = static_cast<double>(Int(r, -12, 12)) * (π / 4);
        for (std::int64_t k = Int(r, -2, 2); k != 0; k += k < 0 ? 1 : -1) {
          θ = std::nextafter(θ, k < 0 ? -inf : inf);
        }
    }
    CaseHash(Bits(θ));
    SetCase(Hex(θ));
    Big const x(θ);
    {
      // Payne-Hanek.
      DoublePrecision<double> reduced;
      std::int64_t quadrant = -1;
      PayneHanekReduction<61>(θ, reduced, quadrant);
      Big const error = DistanceToMultiple(
          x - quadrant * pi / 2 - Exact(reduced), 2 * pi);
      Max("Payne-Hanek absolute error (2^-90)",
          static_cast<double>(ldexp(error, 90)));
      VERIF(quadrant >= 0 && quadrant <= 3, Str("PayneHanek:quadrant", leg),
            Hex(θ) << " " << quadrant);
      VERIF(std::abs(reduced.value) <= 0x1.921FB54442D19p-1,
            Str("PayneHanek:range", leg), Hex(θ) << " " << Hex(reduced));
      VERIF(error <= ldexp(Big(1), -90), Str("PayneHanek:error", leg),
            Hex(θ) << " → " << Hex(reduced) << " " << quadrant << ", error "
                   << static_cast<double>(error));
      DoublePrecision<Angle> reduced_angle;
      std::int64_t quadrant_angle = -1;
      PayneHanekReduction<61>(θ * Radian, reduced_angle, quadrant_angle);
      VERIF(reduced_angle.value == reduced.value * Radian &&
                reduced_angle.error == reduced.error * Radian &&
                quadrant_angle == quadrant,
            Str("PayneHanek:angle", leg), Hex(θ));
    }
    auto check = [&](std::string const& name,
                     double const reduced,
                     double const lower,
                     double const upper,
                     Big const& period) {
      Big const error = DistanceToMultiple(x - Big(reduced), period);
      Max("ReduceAngle error (2^-50)", static_cast<double>(ldexp(error, 50)));
      VERIF(lower <= reduced && reduced <= upper, "ReduceAngle:range" + name +
            leg, Hex(θ) << " → " << Hex(reduced));
      VERIF(error <= ldexp(Big(1), -49), "ReduceAngle:congruence" + name + leg,
            Hex(θ) << " → " << Hex(reduced) << ", error "
                   << static_cast<double>(error));
    };
    Angle const α = θ * Radian;
    constexpr double low_π = π;
    check("½", ReduceAngle<-low_π / 2, low_π / 2>(α) / Radian, -π_up / 2,
          π_up / 2, pi);
    check("1", ReduceAngle<-low_π, low_π>(α) / Radian, -π_up, π_up, 2 * pi);
    check("2", ReduceAngle<0.0, 2 * low_π>(α) / Radian, 0.0, 2 * π_up, 2 * pi);
    if (std::abs(θ) < 0x1p45) {
      auto split = [&](std::string const& name, Angle const& fractional,
                       double const integer, Big const& period) {
        VERIF(integer == std::round(integer), "ReduceAngle:integer" + name +
              leg, Hex(θ) << " " << integer);
        Big const error = abs(x - Big(fractional / Radian) - integer * period);
        VERIF(error <= ldexp(Big(1), -49), "ReduceAngle:split" + name + leg,
              Hex(θ) << " " << Hex(fractional / Radian) << " " << integer);
      };
      Angle fractional;
      double integer;
      ReduceAngle<-low_π / 2, low_π / 2>(α, fractional, integer);
      split("½", fractional, integer, pi);
      ReduceAngle<-low_π, low_π>(α, fractional, integer);
      split("1", fractional, integer, 2 * pi);
      ReduceAngle<0.0, 2 * low_π>(α, fractional, integer);
      split("2", fractional, integer, 2 * pi);

      double const previous =
          Chance(r, 0.5) ? LogUniform(r, -10, 20)
                         : θ + static_cast<double>(Int(r, -40, 40)) * π / 2;
      double const unwound =
          ef::UnwindFrom(previous * Radian, α) / Radian;
      double const magnitude =
          std::max({std::abs(previous), std::abs(θ), 1.0});
      VERIF(std::abs(unwound - previous) <= π + 8e-16 * magnitude,
            Str("UnwindFrom:distance", leg),
            Hex(previous) << " " << Hex(θ) << " → " << Hex(unwound));
      VERIF(DistanceToMultiple(Big(unwound) - x, 2 * pi) <=
                Big(magnitude) * 8e-16,
            Str("UnwindFrom:congruence", leg),
            Hex(previous) << " " << Hex(θ) << " → " << Hex(unwound));
    }
  }
}

void Body() {
  if (Selected("eft")) {
    Transformations();
  }
  if (Selected("dd")) {
    Arithmetic();
  }
  if (Selected("utilities")) {
    Utilities();
  }
  if (Selected("reduction")) {
    Reduction();
  }
}

}  // namespace

VERIF_MAIN(Body)
