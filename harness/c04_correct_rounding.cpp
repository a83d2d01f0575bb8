// C04: sin, cos, sincos and ∛ are correctly rounded to nearest, ties to even.
#include <immintrin.h>

#include "boost/multiprecision/cpp_bin_float.hpp"
#include "boost/multiprecision/cpp_int.hpp"
#include "numerics/cbrt.hpp"
#include "numerics/elementary_functions.hpp"
#include "numerics/sin_cos.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "verif.hpp"

extern "C" __float128 sinq(__float128);
extern "C" __float128 cosq(__float128);
extern "C" __float128 fabsq(__float128);
extern "C" __float128 floorq(__float128);
extern "C" double cr_sin(double);
extern "C" double cr_cos(double);

using namespace principia::numerics;
using namespace principia::numerics::_fma;
using namespace verif;
namespace mp = boost::multiprecision;
using principia::numerics::_sin_cos::Cos;
using principia::numerics::_sin_cos::Sin;
using principia::numerics::_sin_cos::SinCos;

namespace {

#if PRINCIPIA_REQUIRES_FMA
constexpr FMAPresence presence = FMAPresence::Present;
char const leg[] = "fma";
#else
constexpr FMAPresence presence = FMAPresence::Absent;
char const leg[] = "no-fma";
#endif

std::uint64_t slow_sin = 0;
std::uint64_t slow_cos = 0;

std::string Hex(double const x) {
  char b[64];
  std::snprintf(b, sizeof(b), "%a", x);
  return b;
}

// The double nearest to `q`, unless `q` is too close to a tie to tell given
// its relative error, in which case the slow oracle is used.
double Nearest(__float128 const q, double const x, double (*slow)(double)) {
  double const d = static_cast<double>(q);
  __float128 const margin = fabsq(q) * 0x1p-106Q;
  if (static_cast<double>(q - margin) != d ||
      static_cast<double>(q + margin) != d) {
    Count("ties broken by the multiprecision oracle");
    return slow(x);
  }
  return d;
}

bool Same(double const a, double const b) {
  // The sign of a null sine is not specified.
  return a == b || (a != a && b != b);
}

void CheckSinCosWith(double const x, double const s, double const c) {
  double const sp = Sin<presence>(x);
  double const cp = Cos<presence>(x);
  auto const [sp2, cp2] = SinCos<presence>(x);
  if (!Same(sp, s)) {
    SetCase(Hex(x));
    VERIF(false, Str("sin:", leg), Hex(x) << ": " << Hex(sp) << " vs "
                                          << Hex(s));
  }
  if (!Same(cp, c)) {
    SetCase(Hex(x));
    VERIF(false, Str("cos:", leg), Hex(x) << ": " << Hex(cp) << " vs "
                                          << Hex(c));
  }
  if (!Same(sp2, s) || !Same(cp2, c)) {
    SetCase(Hex(x));
    VERIF(false, Str("sincos:", leg),
          Hex(x) << ": " << Hex(sp2) << ", " << Hex(cp2) << " vs " << Hex(s)
                 << ", " << Hex(c));
  }
}

void CheckSinCos(double const x) {
  SetCase(Hex(x));
  double const s =
      x == 0 ? x
             : std::fabs(x) < 0x1p-40
                   ? cr_sin(x)
                   : Nearest(sinq(x), x, &cr_sin);
  double const c = std::fabs(x) < 0x1p-40 ? 1 : Nearest(cosq(x), x, &cr_cos);
  for (double const sign : {1.0, -1.0}) {
    CheckSinCosWith(sign * x, sign * s, c);
  }
  CaseHash(Bits(x));
}

// Looks for arguments x₀ + k ulp whose image is very close to a tie or to a
// double, by following the second-order expansion in fixed point.
void HardSinCos(Rng& r, double const x0, bool const sine) {
  int ex;
  std::frexp(x0, &ex);
  double const ulp_x = std::ldexp(1, ex - 53);
  double const k_max = std::min(0x1p16, 0x1p-22 / ulp_x);
  if (k_max < 64) return;
  int const K = k_max;
  __float128 const s = sinq(x0);
  __float128 const c = cosq(x0);
  __float128 const f = sine ? s : c;
  __float128 const fʹ = sine ? c : -s;
  int ef;
  std::frexp(static_cast<double>(f), &ef);
  __float128 const scale = std::ldexp(1.0, 53 - ef);
  auto const fixed = [](__float128 q) -> std::uint64_t {
    q -= floorq(q);
    return static_cast<std::uint64_t>(q * 0x1p64Q);
  };
  // F(k) = f + fʹ ku - f k²u²/2 (in units of the last place, modulo 1/2 so that
  // both the ties and the doubles are found).
  __float128 const u = ulp_x;
  std::uint64_t v = fixed(2 * f * scale);
  std::uint64_t d = fixed(2 * (fʹ * u - f * u * u / 2) * scale);
  std::uint64_t const dd = fixed(2 * (-f * u * u) * scale);
  struct Best {
    std::uint64_t distance = ~0ull;
    int k = 0;
  } best[3];
  for (int k = 0; k < K; ++k) {
    std::int64_t const sv = static_cast<std::int64_t>(v);
    std::uint64_t const distance = sv < 0 ? -static_cast<std::uint64_t>(sv) : sv;
    if (distance < best[2].distance && k > 0) {
      int i = 2;
      while (i > 0 && distance < best[i - 1].distance) {
        best[i] = best[i - 1];
        --i;
      }
      best[i] = {distance, k};
    }
    v += d;
    d += dd;
  }
  for (auto const& b : best) {
    if (b.distance != ~0ull) {
      Max("closest approach to a tie or double, -log2(ulp)",
          64 - std::log2(b.distance + 1.0) + 1);
      CheckSinCos(x0 + b.k * ulp_x);
    }
  }
  Count("searches for hard sin/cos arguments");
}

// Arguments that are very close to multiples of π/2.
std::vector<double> HardReductions() {
  using Big = mp::number<
      mp::cpp_bin_float<1600, mp::digit_base_2, void, std::int32_t>,
      mp::et_off>;
  Big const two_over_π = 2 / boost::math::constants::pi<Big>();
  std::vector<double> result;
  for (int e = -60; e <= 970; ++e) {
    Big α = ldexp(two_over_π, e);
    α -= floor(α);
    mp::cpp_int a = (ldexp(α, 240)).convert_to<mp::cpp_int>();
    mp::cpp_int b = mp::cpp_int(1) << 240;
    // Convergents of a / b: the denominators are the mantissas.
    mp::cpp_int q0 = 1, q1 = 0;
    while (a != 0) {
      mp::cpp_int const t = b / a;
      mp::cpp_int const q2 = t * q0 + q1;
      // Here q0 is a denominator.
      if (q0 >= (mp::cpp_int(1) << 53)) break;
      if (q0 >= (mp::cpp_int(1) << 30)) {
        result.push_back(std::ldexp(q0.convert_to<double>(), e));
      }
      q1 = q0;
      q0 = q2;
      mp::cpp_int const rem = b - t * a;
      b = a;
      a = rem;
    }
  }
  return result;
}

void RunSinCos() {
  _sin_cos::SetSlowPathsCallbacks([](double) { ++slow_sin; },
                                  [](double) { ++slow_cos; });
  Rng r = MakeRng("sincos");
  // Special values.
  double const inf = std::numeric_limits<double>::infinity();
  double const nan = std::numeric_limits<double>::quiet_NaN();
  SetCase("special values");
  CheckSinCosWith(inf, nan, nan);
  CheckSinCosWith(-inf, nan, nan);
  CheckSinCosWith(nan, nan, nan);
  CheckSinCosWith(0.0, 0.0, 1);
  CheckSinCosWith(-0.0, -0.0, 1);
  for (double const x : {0x1p-1074, 0x1p-1022, 0x1.fffffffffffffp-1023,
                         0x1p-600, 0x1p-54, 0x1p-27, 0x1p-26,
                         std::numeric_limits<double>::max()}) {
    CheckSinCos(x);
  }
  // Both sides of all the boundaries that the tables and the reductions have.
  SetCase("boundaries");
  int index = 0;
  auto const around = [&](double x) {
    if (index++ % S().shards != S().shard) return;
    double lo = x, hi = x;
    CheckSinCos(x);
    for (int i = 0; i < 3; ++i) {
      CheckSinCos(lo = std::nextafter(lo, 0));
      CheckSinCos(hi = std::nextafter(hi, inf));
    }
  };
  for (int k = 1; k < 1700; ++k) around(k / 1024.0);
  for (int k = 1; k < 1200; ++k) {
    around(k * 0x1.921fb54442d18p0);
    around(k * 0x1.921fb54442d18p-1);
  }
  for (int e = -30; e < 1024; ++e) {
    around(std::ldexp(1.0, e));
    around(std::ldexp(0x1.921fb54442d18p0, e - 1));
    around(std::ldexp(0x1.3bd3cc9be45dep3, e - 4));
  }
  SetCase("hard reductions");
  for (double const x : HardReductions()) {
    if (index++ % S().shards != S().shard) continue;
    CheckSinCos(x);
    CheckSinCos(std::nextafter(x, 0));
    CheckSinCos(std::nextafter(x, inf));
    if (x < 0x1p970) {
      CheckSinCos(2 * x);
      CheckSinCos(3 * x);
    }
    Count("nearly multiples of π/2");
  }
  SetCase("random arguments");
  std::int64_t const n = N(400'000);
  for (std::int64_t i = 0; i < n; ++i) {
    switch (i % 8) {
      case 0: CheckSinCos(Uniform(r, 0, 0.8)); break;
      case 1: CheckSinCos(Uniform(r, 0.7, 7)); break;
      case 2: CheckSinCos(Uniform(r, 0, 500)); break;
      case 3: CheckSinCos(Uniform(r, 300, 500'000)); break;
      case 4: CheckSinCos(std::fabs(LogUniform(r, -30, 3))); break;
      case 5: CheckSinCos(std::fabs(LogUniform(r, 15, 40))); break;
      case 6: CheckSinCos(std::fabs(LogUniform(r, -12, 30))); break;
      case 7:
        if (i % 16 == 7) {
          CheckSinCos(std::fabs(LogUniform(r, 30, 1023)));
        } else {
          CheckSinCos(Uniform(r, 0, 0.01));
        }
        break;
    }
  }
  SetCase("hard arguments");
  std::int64_t const m = N(25'000);
  for (std::int64_t i = 0; i < m; ++i) {
    double x;
    switch (i % 6) {
      case 0: x = Uniform(r, 0.002, 0.8); break;
      case 1: x = Uniform(r, 0.7, 7); break;
      case 2: x = Uniform(r, 0, 500); break;
      case 3: x = std::fabs(LogUniform(r, -12, 16)); break;
      case 4:
        // Close to a multiple of π/2, where the sine or cosine is small.
        x = Int(r, 1, 300) * 0x1.921fb54442d18p0 + LogUniform(r, -20, -3);
        break;
      default: x = std::fabs(LogUniform(r, -26, -7)); break;
    }
    HardSinCos(r, x, i / 6 % 2 == 0);
  }
  Count("slow paths of sin", slow_sin);
  Count("slow paths of cos", slow_cos);
  // The exposed API.
  namespace ef = principia::numerics::_elementary_functions;
  using principia::quantities::_si::Radian;
  SetCase("elementary functions");
  for (std::int64_t i = 0; i < N(20'000); ++i) {
    double const x = LogUniform(r, -30, 40);
    double const s = Nearest(sinq(x), x, &cr_sin);
    double const c = Nearest(cosq(x), x, &cr_cos);
    ef::ConfigureElementaryFunctions(/*uses_correct_sin_cos=*/true);
    auto const [s2, c2] = ef::SinCos(x * Radian);
    VERIF(Same(ef::Sin(x * Radian), s) && Same(ef::Cos(x * Radian), c) &&
              Same(s2, s) && Same(c2, c),
          "api", Hex(x));
    ef::ConfigureElementaryFunctions(/*uses_correct_sin_cos=*/false);
    auto const [s3, c3] = ef::SinCos(x * Radian);
    VERIF(Same(ef::Sin(x * Radian), std::sin(x)) &&
              Same(ef::Cos(x * Radian), std::cos(x)) &&
              Same(s3, std::sin(x)) && Same(c3, std::cos(x)),
          "api-std", Hex(x));
  }
  ef::ConfigureElementaryFunctions(/*uses_correct_sin_cos=*/true);
}

// c is ∛y correctly rounded iff (c - ½ulp)³ ≤ y ≤ (c + ½ulp)³, exactly; there
// are no ties since a tie would have more than 53 bits when cubed.
bool CubeRootIsCorrect(double const y, double const c) {
  if (!(c > 0) || !std::isfinite(c)) return false;
  auto const split = [](double const x, int& e) {
    return static_cast<std::int64_t>(std::ldexp(std::frexp(x, &e), 53));
  };
  int ey, ec;
  std::int64_t const my = split(y, ey);
  std::int64_t const mc = split(c, ec);
  if (mc == 1ll << 52) {
    // A power of two: the lower half-ulp is half as large.
    mp::cpp_int const lo = mp::cpp_int(4 * mc - 1);
    mp::cpp_int const hi = mp::cpp_int(4 * mc + 2);
    int const shift = ey - 53 - 3 * (ec - 55);
    mp::cpp_int yy = my;
    mp::cpp_int lo3 = lo * lo * lo, hi3 = hi * hi * hi;
    if (shift >= 0) yy <<= shift; else { lo3 <<= -shift; hi3 <<= -shift; }
    return lo3 <= yy && yy <= hi3;
  }
  mp::cpp_int const lo = mp::cpp_int(2 * mc - 1);
  mp::cpp_int const hi = mp::cpp_int(2 * mc + 1);
  int const shift = ey - 53 - 3 * (ec - 54);
  mp::cpp_int yy = my;
  mp::cpp_int lo3 = lo * lo * lo, hi3 = hi * hi * hi;
  if (shift >= 0) yy <<= shift; else { lo3 <<= -shift; hi3 <<= -shift; }
  return lo3 <= yy && yy <= hi3;
}

using _cbrt::internal::Rounding;

void CheckCbrt(double const y) {
  if (!std::isfinite(y)) return;
  double const c = _cbrt::Cbrt(y);
  if (!CubeRootIsCorrect(y, c)) {
    SetCase(Hex(y));
    VERIF(false, "cbrt", Hex(y) << ": " << Hex(c));
  }
  if (double const c2 = _cbrt::Cbrt(-y); Bits(c2) != Bits(-c)) {
    SetCase(Hex(-y));
    VERIF(false, "cbrt:odd", Hex(y) << ": " << Hex(c2));
  }
  double const c3 = _cbrt::internal::method_3²ᴄZ5¹::Cbrt<Rounding::Correct>(y);
  if (Bits(c3) != Bits(c)) {
    SetCase(Hex(y));
    VERIF(false, "cbrt:3²ᴄZ5¹", Hex(y) << ": " << Hex(c3));
  }
#if PRINCIPIA_REQUIRES_FMA
  double const c5 =
      _cbrt::internal::method_5²Z4¹FMA::Cbrt<Rounding::Correct>(y);
  if (Bits(c5) != Bits(c)) {
    SetCase(Hex(y));
    VERIF(false, "cbrt:5²Z4¹FMA", Hex(y) << ": " << Hex(c5));
  }
#endif
  CaseHash(Bits(y));
}

// Arguments whose cube root is very close to a tie or a double: the doubles
// that are closest to the cube of a tie or a double, among consecutive ones.
void HardCbrt(Rng& r) {
  // c in [2^53, 2^54[ is a multiple of 1: a double if even, a tie if odd.
  std::uint64_t const c0 =
      (1ull << 53) + (r() >> 11) % ((1ull << 53) - (1ull << 20));
  int const scaling = Int(r, -340, 340);
  using I = mp::cpp_int;
  I const c0³ = I(c0) * c0 * c0;
  int const bits = mp::msb(c0³) + 1;
  int const shift = bits - 53;  // The unit in the last place of the cube.
  auto const fixed = [shift](I const& i) -> std::uint64_t {
    I const m = i & ((I(1) << shift) - 1);
    return static_cast<std::uint64_t>(m >> (shift - 64));
  };
  int const step = Chance(r, 0.5) ? 2 : 1;
  // F(k) = (c₀ + sk)³ = c₀³ + 3c₀²sk + 3c₀s²k² + s³k³.
  std::uint64_t v = fixed(c0³);
  std::uint64_t d =
      fixed(3 * I(c0) * c0 * step + 3 * I(c0) * step * step);
  std::uint64_t const dd = fixed(6 * I(c0) * step * step);
  std::uint64_t best = ~0ull;
  int best_k = 0;
  for (int k = 0; k < 1 << 15; ++k) {
    std::int64_t const s = static_cast<std::int64_t>(v);
    std::uint64_t const distance = s < 0 ? -static_cast<std::uint64_t>(s) : s;
    if (distance < best) {
      best = distance;
      best_k = k;
    }
    v += d;
    d += dd;
  }
  I const c = I(c0) + best_k * step;
  I const c³ = c * c * c;
  int const shift2 = mp::msb(c³) + 1 - 53;
  I y = (c³ + (I(1) << (shift2 - 1))) >> shift2;
  double const yd = y.convert_to<double>();
  Max("closest approach to the cube of a tie or double, -log2(ulp)",
      64 - std::log2(best + 1.0));
  double const base = std::ldexp(yd, shift2 - 162 + 3 * scaling);
  for (int e = 0; e < 3; ++e) {
    CheckCbrt(std::ldexp(base, 3 * e));
  }
  Count("searches for hard ∛ arguments");
}

void RunCbrt() {
  Rng r = MakeRng("cbrt");
  double const inf = std::numeric_limits<double>::infinity();
  SetCase("special values");
  VERIF(Bits(_cbrt::Cbrt(0.0)) == Bits(0.0), "cbrt:0", "");
  VERIF(Bits(_cbrt::Cbrt(-0.0)) == Bits(-0.0), "cbrt:-0", "");
  VERIF(_cbrt::Cbrt(inf) == inf && _cbrt::Cbrt(-inf) == -inf, "cbrt:inf", "");
  VERIF(std::isnan(_cbrt::Cbrt(std::nan(""))), "cbrt:nan", "");
  SetCase("random arguments");
  std::int64_t const n = N(150'000);
  for (std::int64_t i = 0; i < n; ++i) {
    switch (i % 4) {
      case 0: CheckCbrt(Uniform(r, 1, 8)); break;
      case 1: CheckCbrt(std::fabs(LogUniform(r, -1022, 1023))); break;
      case 2: CheckCbrt(Bits(std::uint64_t(r() % (1ull << 52) >> Int(r, 0, 51)) + 1));
        break;
      default: {
        // Perfect cubes and their neighbours.
        double const c = Int(r, 1, 200'000);
        double const y = std::ldexp(c * c * c, 3 * Int(r, -340, 300));
        CheckCbrt(y);
        CheckCbrt(std::nextafter(y, inf));
        CheckCbrt(std::nextafter(y, 0));
      }
    }
  }
  for (int e = -1074; e <= 1023; ++e) {
    double const y = std::ldexp(1.0, e);
    CheckCbrt(y);
    CheckCbrt(std::nextafter(y, inf));
    if (e > -1074) CheckCbrt(std::nextafter(y, 0));
  }
  CheckCbrt(std::numeric_limits<double>::max());
  SetCase("hard arguments");
  std::int64_t const m = N(25'000);
  for (std::int64_t i = 0; i < m; ++i) HardCbrt(r);
}

void RunAll() {
#if PRINCIPIA_REQUIRES_FMA
  if (!__builtin_cpu_supports("fma") || !__builtin_cpu_supports("avx2")) {
    Count("no FMA on this processor");
    return;
  }
#endif
  if (Selected("sincos")) RunSinCos();
  if (Selected("cbrt")) RunCbrt();
}

}  // namespace

VERIF_MAIN(RunAll)
