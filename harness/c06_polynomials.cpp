// C06: polynomials and approximations, against quadruple-precision arithmetic.
#include <array>
#include <cmath>
#include <memory>

#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/hilbert.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "numerics/approximation.hpp"
#include "numerics/elementary_functions.hpp"
#include "numerics/hermite2.hpp"
#include "numerics/hermite3.hpp"
#include "numerics/newhall.hpp"
#include "numerics/polynomial.hpp"
#include "numerics/polynomial_evaluators.hpp"
#include "numerics/polynomial_in_monomial_basis.hpp"
#include "numerics/polynomial_in_чебышёв_basis.hpp"
#include "numerics/чебышёв_lobatto.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/numerics.pb.h"
#include "verif.hpp"

using namespace principia::base::_algebra;
using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::numerics::_approximation;
using principia::numerics::_elementary_functions::Abs;
using namespace principia::numerics::_hermite2;
using namespace principia::numerics::_hermite3;
using namespace principia::numerics::_newhall;
using namespace principia::numerics::_polynomial;
using namespace principia::numerics::_polynomial_evaluators;
using namespace principia::numerics::_polynomial_in_monomial_basis;
using namespace principia::numerics::_polynomial_in_чебышёв_basis;
using namespace principia::numerics::_чебышёв_lobatto;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace principia::quantities::_tuples;
using namespace verif;
namespace serialization = principia::serialization;

extern "C" __float128 fabsq(__float128);
extern "C" __float128 cosq(__float128);

namespace {

using F = __float128;
using World = Frame<serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    serialization::Frame::TEST>;
using D = Displacement<World>;
using P = Position<World>;
Instant const t0;

using principia::geometry::_hilbert::Norm;

// The coordinates of anything, in SI units.
template<typename T>
struct Dim {
  static constexpr int n = 1;
  static double Get(T const& t, int) { return t / Unit<T>; }
  static T Make(std::array<double, 3> const& a) { return a[0] * Unit<T>; }
};
template<typename S, typename Fr>
struct Dim<Vector<S, Fr>> {
  static constexpr int n = 3;
  static double Get(Vector<S, Fr> const& t, int const i) {
    return t.coordinates()[i] / Unit<S>;
  }
  static Vector<S, Fr> Make(std::array<double, 3> const& a) {
    return Vector<S, Fr>({a[0] * Unit<S>, a[1] * Unit<S>, a[2] * Unit<S>});
  }
};
template<>
struct Dim<P> {
  static constexpr int n = 3;
  static double Get(P const& t, int const i) {
    return Dim<D>::Get(t - World::origin, i);
  }
  static P Make(std::array<double, 3> const& a) {
    return World::origin + Dim<D>::Make(a);
  }
};
template<>
struct Dim<Instant> {
  static constexpr int n = 1;
  static double Get(Instant const& t, int) { return (t - t0) / Second; }
  static Instant Make(std::array<double, 3> const& a) {
    return t0 + a[0] * Second;
  }
};

// A polynomial in quadruple precision, by dimension, around an origin.
template<int dim>
struct Model {
  std::array<std::vector<F>, dim> c;
  F origin = 0;

  // The value of the `k`th derivative, and the sum of the absolute values of
  // its terms.
  std::pair<F, F> At(int const i, double const t, int const k = 0) const {
    F const x = static_cast<F>(t) - origin;
    F value = 0;
    F bound = 0;
    F power = 1;
    for (int j = k; j < static_cast<int>(c[i].size()); ++j) {
      F factor = 1;
      for (int l = 0; l < k; ++l) {
        factor *= j - l;
      }
      value += c[i][j] * factor * power;
      bound += fabsq(c[i][j] * factor * power);
      power *= x;
    }
    return {value, bound};
  }
};

template<typename Value, typename Argument, int d, template<typename, typename,
         int> typename E>
auto ModelOf(PolynomialInMonomialBasis<Value, Argument, d, E> const& p) {
  Model<Dim<Value>::n> m;
  m.origin = Dim<Argument>::Get(p.origin(), 0);
  auto const& c = p.coefficients();
  [&]<std::size_t... k>(std::index_sequence<k...>) {
    (
        [&] {
          using C = std::remove_cvref_t<decltype(get<k>(c))>;
          for (int i = 0; i < Dim<Value>::n; ++i) {
            m.c[i].push_back(Dim<C>::Get(get<k>(c), i));
          }
        }(),
        ...);
  }(std::make_index_sequence<d + 1>());
  return m;
}

double const u = 0x1p-53;

double coefficient_scale = 1;

template<typename Value, typename Argument, int d,
         template<typename, typename, int> typename E = DefaultEvaluator>
PolynomialInMonomialBasis<Value, Argument, d, E> RandomPolynomial(
    Rng& r, double const t_scale, Argument const& origin) {
  typename PolynomialInMonomialBasis<Value, Argument, d, E>::Coefficients c;
  [&]<std::size_t... k>(std::index_sequence<k...>) {
    (
        [&] {
          using C = std::remove_cvref_t<decltype(get<k>(c))>;
          std::array<double, 3> a;
          for (double& x : a) {
            x = Chance(r, 0.05)
                    ? 0
                    : Uniform(r, -1, 1) * coefficient_scale /
                          std::pow(t_scale, static_cast<double>(k));
          }
          get<k>(c) = Dim<C>::Make(a);
        }(),
        ...);
  }(std::make_index_sequence<d + 1>());
  return PolynomialInMonomialBasis<Value, Argument, d, E>(c, origin);
}

// Checks that `actual` is `expected` to within `n` roundings relative to
// `bound`.
template<typename T>
void Close(std::string const& key,
           T const& actual,
           int const i,
           F const expected,
           F const bound,
           double const n) {
  double const a = Dim<T>::Get(actual, i);
  F const error = fabsq(static_cast<F>(a) - expected);
  VERIF(error <= static_cast<F>(n * u) * bound + 1e-300Q, key,
        a << " instead of " << static_cast<double>(expected) << ", bound "
          << static_cast<double>(bound));
}

template<template<typename, typename, int> typename E, typename Value, int d>
void CheckEvaluator(std::string const& name,
                    PolynomialInMonomialBasis<Value, Instant, d> const& base,
                    std::vector<double> const& ts) {
  PolynomialInMonomialBasis<Value, Instant, d, E> const p(base.coefficients(),
                                                          base.origin());
  auto const m = ModelOf(p);
  Polynomial<Value, Instant> const& v = p;
  VERIF(v.degree() == d, "monomial:degree", name);
  for (double const s : ts) {
    Instant const t = t0 + s * Second;
    Value const value = p(t);
    auto const derivative = p.EvaluateDerivative(t);
    using V = std::remove_cvref_t<decltype(derivative)>;
    Value value2{};
    V derivative2{};
    p.EvaluateWithDerivative(t, value2, derivative2);
    VERIF(value2 == value && derivative2 == derivative,
          "monomial:with derivative:" + name, "degree " << d << " at " << s);
    VERIF(v(t) == value && v.EvaluateDerivative(t) == derivative,
          "monomial:virtual:" + name, "degree " << d << " at " << s);
    v.EvaluateWithDerivative(t, value2, derivative2);
    VERIF(value2 == value && derivative2 == derivative,
          "monomial:virtual with derivative:" + name,
          "degree " << d << " at " << s);
    for (int i = 0; i < Dim<Value>::n; ++i) {
      auto const [e, b] = m.At(i, s);
      // The subtraction of the origin is exact or carries one rounding.
      Close("monomial:value:" + name, value, i, e, b, 4.0 * d + 8);
      auto const [e1, b1] = m.At(i, s, 1);
      Close("monomial:derivative:" + name, derivative, i, e1, b1, 4.0 * d + 8);
    }
  }
}

template<typename Value, int d>
void Monomial(Rng& r) {
  double const t_scale = std::ldexp(1.0, static_cast<int>(Int(r, -10, 30)));
  coefficient_scale = std::ldexp(1.0, static_cast<int>(Int(r, -20, 40)));
  double const origin = Chance(r, 0.3) ? 0 : Uniform(r, -3, 3) * t_scale;
  SetCase(Str("monomial degree ", d, " dimension ", Dim<Value>::n, " scale ",
              t_scale, " origin ", origin, " seed ", S().seed, ".", S().shard));
  auto const p = RandomPolynomial<Value, Instant, d>(r, t_scale,
                                                     t0 + origin * Second);
  auto const m = ModelOf(p);
  std::vector<double> ts = {origin};
  for (int k = 0; k < 4; ++k) {
    ts.push_back(origin + Uniform(r, -2, 2) * t_scale);
  }
  CheckEvaluator<Estrin>("Estrin", p, ts);
  CheckEvaluator<EstrinWithoutFMA>("EstrinWithoutFMA", p, ts);
  CheckEvaluator<Horner>("Horner", p, ts);
  CheckEvaluator<HornerWithoutFMA>("HornerWithoutFMA", p, ts);
  CheckEvaluator<DefaultEvaluator>("Default", p, ts);

  // Another origin; only for vector spaces.
  if constexpr (additive_group<Value>) {
    double const origin2 = origin + Uniform(r, -1, 1) * t_scale;
    auto const shifted = p.AtOrigin(t0 + origin2 * Second);
    VERIF(shifted.origin() == t0 + origin2 * Second, "monomial:AtOrigin", "origin");
    for (double const s : ts) {
      for (int i = 0; i < Dim<Value>::n; ++i) {
        auto const [e, b] = m.At(i, s);
        // The terms may be much larger than those of the original.
        F bound = 0;
        F power = 1;
        F const x = fabsq(static_cast<F>(s) - static_cast<F>(origin2)) +
                    fabsq(static_cast<F>(origin2) - static_cast<F>(origin));
        for (auto const& c : m.c[i]) {
          bound += fabsq(c) * power;
          power *= x;
        }
        Close("monomial:AtOrigin", shifted(t0 + s * Second), i, e, bound,
              8.0 * d + 16);
      }
    }
  }

  // Serialization.
  {
    serialization::Polynomial message;
    p.WriteToMessage(&message);
    auto const q = Polynomial<Value, Instant>::ReadFromMessage(message);
    VERIF(q->degree() == d, "monomial:serialization", "degree");
    for (double const s : ts) {
      VERIF((*q)(t0 + s * Second) == p(t0 + s * Second) &&
                q->EvaluateDerivative(t0 + s * Second) ==
                    p.EvaluateDerivative(t0 + s * Second),
            "monomial:serialization", "value at " << s);
    }
    serialization::Polynomial message2;
    q->WriteToMessage(&message2);
    VERIF(message.SerializeAsString() == message2.SerializeAsString(),
          "monomial:serialization", "message");
    auto const direct =
        PolynomialInMonomialBasis<Value, Instant, d>::ReadFromMessage(message);
    VERIF(direct == p, "monomial:serialization", "direct");
    // The policies use the evaluators that they advertise.
    serialization::PolynomialInMonomialBasis::Policy policy_message;
    Policy::AlwaysEstrinWithoutFMA().WriteToMessage(&policy_message);
    auto const policy = Policy::ReadFromMessage(policy_message);
    auto const without_fma = policy.WithEvaluator(
        PolynomialInMonomialBasis<Value, Instant, d>(p));
    auto const with_fma = Policy::AlwaysEstrin().WithEvaluator(
        PolynomialInMonomialBasis<Value, Instant, d>(p));
    PolynomialInMonomialBasis<Value, Instant, d, EstrinWithoutFMA> const
        reference(p.coefficients(), p.origin());
    PolynomialInMonomialBasis<Value, Instant, d, Estrin> const reference2(
        p.coefficients(), p.origin());
    for (double const s : ts) {
      VERIF((*without_fma)(t0 + s * Second) == reference(t0 + s * Second),
            "monomial:policy", "without FMA at " << s);
      VERIF((*with_fma)(t0 + s * Second) == reference2(t0 + s * Second),
            "monomial:policy", "with FMA at " << s);
    }
  }
  Case(Str(Dim<Value>::n, " ", d, " ", t_scale, " ", origin, " ", r()), d > 0);
}

// The laws of the algebra of polynomials.
template<int l, int r_>
void Algebra(Rng& r) {
  double const t_scale = std::ldexp(1.0, static_cast<int>(Int(r, -5, 15)));
  coefficient_scale = 1;
  double const origin = Chance(r, 0.5) ? 0 : Uniform(r, -3, 3) * t_scale;
  Instant const o = t0 + origin * Second;
  SetCase(Str("algebra ", l, " ", r_, " scale ", t_scale, " origin ", origin));
  auto const p = RandomPolynomial<Length, Instant, l>(r, t_scale, o);
  auto const q = RandomPolynomial<Length, Instant, r_>(r, t_scale, o);
  auto const w = RandomPolynomial<D, Instant, r_>(r, t_scale, o);
  auto const w2 = RandomPolynomial<D, Instant, l>(r, t_scale, o);
  auto const z = RandomPolynomial<P, Instant, r_>(r, t_scale, o);
  auto const mp = ModelOf(p);
  auto const mq = ModelOf(q);
  auto const mw = ModelOf(w);
  auto const mw2 = ModelOf(w2);
  auto const mz = ModelOf(z);
  auto const sum = p + q;
  auto const difference = p - q;
  auto const product = p * q;
  auto const scaled = 3.5 * p;
  auto const scaled2 = p * 3.5;
  auto const divided = p / 3.5;
  auto const opposite = -p;
  auto const vector_product = p * w;
  auto const inner = PointwiseInnerProduct(w2, w);
  auto const translated = w2 + z;
  auto const affine_difference = z - z;
  auto const derivative = p.Derivative();
  auto const primitive = p.Primitive();
  auto const plus_constant = p + 2.5 * Metre;
  auto const minus_constant = p - 2.5 * Metre;
  auto const constant_minus = 2.5 * Metre - p;
  PolynomialInMonomialBasis<Length, Instant, l + 2> const higher(p);
  auto accumulated = p;
  accumulated += p;
  accumulated -= 4 * p;
  accumulated *= 2.0;
  accumulated /= 3.0;
  double const n = 4 * (l + r_) + 16;
  for (int k = 0; k < 4; ++k) {
    double const s = k == 0 ? origin : origin + Uniform(r, -1.5, 1.5) * t_scale;
    Instant const t = t0 + s * Second;
    auto const [vp, bp] = mp.At(0, s);
    auto const [vq, bq] = mq.At(0, s);
    Close("algebra:+", sum(t), 0, vp + vq, bp + bq, n);
    Close("algebra:-", difference(t), 0, vp - vq, bp + bq, n);
    Close("algebra:*", product(t), 0, vp * vq, bp * bq, n);
    Close("algebra:scalar*", scaled(t), 0, 3.5 * vp, 3.5 * bp, n);
    Close("algebra:*scalar", scaled2(t), 0, 3.5 * vp, 3.5 * bp, n);
    Close("algebra:/scalar", divided(t), 0, vp / 3.5, bp / 3.5, n);
    Close("algebra:unary -", opposite(t), 0, -vp, bp, n);
    Close("algebra:+constant", plus_constant(t), 0, vp + 2.5, bp + 2.5, n);
    Close("algebra:-constant", minus_constant(t), 0, vp - 2.5, bp + 2.5, n);
    Close("algebra:constant-", constant_minus(t), 0, 2.5 - vp, bp + 2.5, n);
    Close("algebra:higher degree", higher(t), 0, vp, bp, n);
    Close("algebra:in place", accumulated(t), 0, -4 * vp / 3, 8 * bp, n);
    F inner_value = 0;
    F inner_bound = 0;
    for (int i = 0; i < 3; ++i) {
      auto const [vw, bw] = mw.At(i, s);
      auto const [vw2, bw2] = mw2.At(i, s);
      auto const [vz, bz] = mz.At(i, s);
      Close("algebra:vector*", vector_product(t), i, vp * vw, bp * bw, n);
      Close("algebra:affine+", translated(t), i, vw2 + vz, bw2 + bz, n);
      Close("algebra:affine-", affine_difference(t), i, 0, 2 * bz, n);
      inner_value += vw * vw2;
      inner_bound += bw * bw2;
    }
    Close("algebra:inner product", inner(t), 0, inner_value, inner_bound, n);
    auto const [dp, bdp] = mp.At(0, s, 1);
    Close("algebra:derivative", derivative(t), 0, dp, bdp, n);
    if constexpr (l >= 2) {
      auto const [d2, bd2] = mp.At(0, s, 2);
      Close("algebra:second derivative", p.template Derivative<2>()(t), 0, d2,
            bd2, n);
    }
    F integral = 0;
    F integral_bound = 0;
    F power = static_cast<F>(s) - static_cast<F>(origin);
    F const x = power;
    for (std::size_t j = 0; j < mp.c[0].size(); ++j) {
      integral += mp.c[0][j] * power / (j + 1);
      integral_bound += fabsq(mp.c[0][j] * power / (j + 1));
      power *= x;
    }
    Close("algebra:primitive", primitive(t), 0, integral, integral_bound, n);
    // The nodes of the quadrature are instants, and are rounded as such.
    if (x != 0) {
      integral_bound *= 1 + 2 * (l + 1) *
                                (fabsq(static_cast<F>(s)) +
                                 fabsq(static_cast<F>(origin))) / fabsq(x);
    }
    Close("algebra:integrate", p.Integrate(o, t), 0, integral, integral_bound,
          n);
    Close("algebra:integrate backwards", p.Integrate(t, o), 0, -integral,
          integral_bound, n);
  }
  // Composition.
  if constexpr (l * r_ <= 12 && l > 0 && r_ > 0) {
    auto const f = RandomPolynomial<Length, Instant, l>(r, 1, t0);
    auto const g = RandomPolynomial<Instant, Time, r_>(r, 1, Time());
    auto const h = Compose(f, g);
    auto const mf = ModelOf(f);
    auto const mg = ModelOf(g);
    for (int k = 0; k < 3; ++k) {
      double const s = Uniform(r, -1.5, 1.5);
      auto const [vg, bg] = mg.At(0, s);
      F value = 0;
      F bound = 0;
      F power = 1;
      F bound_power = 1;
      for (auto const& c : mf.c[0]) {
        value += c * power;
        bound += fabsq(c) * bound_power;
        power *= vg;
        bound_power *= bg;
      }
      Close("algebra:compose", h(s * Second), 0, value, bound,
            20.0 * (l * r_) + 40);
    }
  }
  Case(Str("algebra ", l, " ", r_, " ", t_scale, " ", origin, " ", r()));
}

// T_n and its derivative.
std::pair<F, F> ЧебышёвT(int const n, F const x) {
  F a = 1;
  F b = x;
  F da = 0;
  F db = 1;
  if (n == 0) {
    return {a, da};
  }
  for (int k = 1; k < n; ++k) {
    F const c = 2 * x * b - a;
    F const dc = 2 * b + 2 * x * db - da;
    a = b;
    b = c;
    da = db;
    db = dc;
  }
  return {b, db};
}

template<typename Value, int d>
void Чебышёв(Rng& r) {
  double const width = std::ldexp(Uniform(r, 0.5, 1),
                                  static_cast<int>(Int(r, -5, 20)));
  double const lower = Uniform(r, -10, 10) * width;
  double const upper = lower + width;
  using Poly = PolynomialInЧебышёвBasis<Value, Instant, d>;
  typename Poly::Coefficients c;
  bool const decreasing = Chance(r, 0.5);
  double scale = std::ldexp(1.0, static_cast<int>(Int(r, -10, 30)));
  double const scale0 = scale;
  for (auto& x : c) {
    x = Dim<Value>::Make({Uniform(r, -scale, scale), Uniform(r, -scale, scale),
                          Uniform(r, -scale, scale)});
    scale *= decreasing ? 0.4 : 1;
  }
  if (Chance(r, 0.3)) {
    c[0] = c[0] * Uniform(r, 1, 10);
  }
  // For such series the convergence of the QR iteration is delicate.
  bool const parity = Chance(r, 0.2);
  if (parity) {
    // Even or odd.
    for (int j = d - 1; j >= 0; j -= 2) {
      c[j] = Dim<Value>::Make({0, 0, 0});
    }
  }
  SetCase(Str("чебышёв degree ", d, " [", lower, ", ", upper, "] scale ",
              scale0, " ", r()));
  Poly const p(c, t0 + lower * Second, t0 + upper * Second);
  serialization::Polynomial message;
  p.WriteToMessage(&message);
  auto const read = Poly::ReadFromMessage(message);
  Polynomial<Value, Instant> const& v = p;
  VERIF(v.degree() == d, "чебышёв:degree", d);
  VERIF(p.lower_bound() == t0 + lower * Second &&
            p.upper_bound() == t0 + upper * Second,
        "чебышёв:bounds", "");
  VERIF(Poly::ReadFromMessage(message) == p, "чебышёв:serialization", "direct");
  std::vector<F> grid;
  F error_max = 0;
  int const steps = 60;
  for (int k = 0; k <= steps; ++k) {
    double const s =
        k == 0 ? lower : k == steps ? upper : Uniform(r, lower, upper);
    Instant const t = t0 + s * Second;
    F const x = (2 * static_cast<F>(s) - static_cast<F>(lower) -
                 static_cast<F>(upper)) /
                (static_cast<F>(upper) - static_cast<F>(lower));
    auto const value = p(t);
    auto const derivative = p.EvaluateDerivative(t);
    auto value2 = value;
    auto derivative2 = derivative;
    p.EvaluateWithDerivative(t, value2, derivative2);
    VERIF(v(t) == value && v.EvaluateDerivative(t) == derivative,
          "чебышёв:virtual", s);
    VERIF(read(t) == value && read.EvaluateDerivative(t) == derivative,
          "чебышёв:serialization", s);
    for (int i = 0; i < Dim<Value>::n; ++i) {
      F expected = 0;
      F dexpected = 0;
      F bound = 0;
      for (int j = 0; j <= d; ++j) {
        auto const [T, dT] = ЧебышёвT(j, x);
        F const cj = Dim<Value>::Get(c[j], i);
        expected += cj * T;
        dexpected += cj * dT;
        // The argument is scaled with some error relative to the bounds.
        bound += fabsq(cj) * (1 + j * j);
      }
      dexpected *= 2 / (static_cast<F>(upper) - static_cast<F>(lower));
      F const conditioning =
          1 + (fabsq(static_cast<F>(lower)) + fabsq(static_cast<F>(upper))) /
                  width;
      Close("чебышёв:value", value, i, expected, bound * conditioning,
            8.0 * d + 20);
      F const dbound = bound * conditioning * (1 + d * d) * 2 / width;
      Close("чебышёв:derivative", derivative, i, dexpected, dbound,
            8.0 * d + 20);
      Close("чебышёв:with derivative", derivative2, i, dexpected, dbound,
            8.0 * d + 20);
      Close("чебышёв:with derivative", value2, i, expected,
            bound * conditioning, 8.0 * d + 20);
      error_max = std::max(error_max, bound * conditioning * (8.0 * d + 20) * u);
    }
  }
  if constexpr (d > 0 && std::is_same_v<Value, Length>) {
    // Roots.  The companion matrix requires a leading coefficient which is not
    // tiny.
    auto value_at = [&](double const s) {
      return p(t0 + s * Second) / Metre;
    };
    double const tolerance = static_cast<double>(error_max) * 8;
    int sign_changes = 0;
    std::vector<std::pair<double, double>> brackets;
    std::vector<double> extremes;
    double const grid_step = width / 400;
    double minimum = std::numeric_limits<double>::infinity();
    double previous = lower;
    for (int k = 0; k <= 400; ++k) {
      double const s = k == 400 ? upper : lower + k * grid_step;
      minimum = std::min(minimum, std::abs(value_at(s)));
      if (k > 0 && std::abs(value_at(s)) > tolerance &&
          std::abs(value_at(previous)) > tolerance &&
          (value_at(s) > 0) != (value_at(previous) > 0)) {
        ++sign_changes;
        brackets.push_back({previous, s});
      }
      previous = s;
    }
    bool const may = p.MayHaveRealRoots();
    VERIF(may || sign_changes == 0, "чебышёв:MayHaveRealRoots",
          sign_changes << " sign changes");
    double const error_estimate = Uniform(r, 0, 2) * scale0;
    VERIF(p.MayHaveRealRoots(error_estimate * Metre) ||
              minimum > error_estimate - tolerance,
          "чебышёв:MayHaveRealRoots:error estimate",
          minimum << " vs " << error_estimate);
    VERIF(!may || p.MayHaveRealRoots(error_estimate * Metre),
          "чебышёв:MayHaveRealRoots:monotonic", error_estimate);
    double const leading = std::abs(c[d] / Metre);
    double total = 0;
    for (auto const& x : c) {
      total += std::abs(x / Metre);
    }
    if (leading > (parity ? 5e-2 : 1e-2) * total) {
      auto const roots = p.RealRoots(/*ε=*/parity ? 1e-6 : 1e-12);
      VERIF(roots.size() <= d, "чебышёв:RealRoots:count", roots.size());
      Count("roots", roots.size());
      for (auto const& root : roots) {
        double const s = (root - t0) / Second;
        VERIF(lower - 1e-9 * width <= s && s <= upper + 1e-9 * width,
              "чебышёв:RealRoots:range", s);
        VERIF(parity || std::abs(value_at(s)) <= 1e-6 * total + tolerance,
              "чебышёв:RealRoots:value", value_at(s) << " at " << s);
      }
      for (auto const& [a, b] : brackets) {
        bool found = false;
        for (auto const& root : roots) {
          double const s = (root - t0) / Second;
          found |= s >= a - 1e-3 * width && s <= b + 1e-3 * width;
        }
        VERIF(parity || found, "чебышёв:RealRoots:missing",
              "no root in [" << a << ", " << b << "], "
                             << roots.size() << " roots");
      }
    }
  }
  Case(Str("чебышёв ", d, " ", lower, " ", upper, " ", r()), d > 0);
}

// Approximations of polynomials that they can represent exactly.
template<int d>
void Newhall(Rng& r) {
  double const duration = std::ldexp(Uniform(r, 0.5, 1),
                                     static_cast<int>(Int(r, -3, 20)));
  double const t_min = Uniform(r, -5, 5) * duration;
  double const t_max = t_min + duration;
  coefficient_scale = std::ldexp(1.0, static_cast<int>(Int(r, -5, 35)));
  SetCase(Str("newhall ", d, " [", t_min, ", ", t_max, "]"));
  auto const exact = RandomPolynomial<D, Instant, d>(
      r, duration, t0 + (t_min + duration / 2) * Second);
  std::vector<principia::numerics::_newhall::internal::QV<D>> qvs;
  std::vector<principia::numerics::_newhall::internal::QV<P>> pqvs;
  for (int k = 0; k <= 8; ++k) {
    Instant const t = t0 + (t_min + k * duration / 8) * Second;
    qvs.push_back({exact(t), exact.EvaluateDerivative(t)});
    pqvs.push_back({World::origin + exact(t), exact.EvaluateDerivative(t)});
  }
  Instant const a = t0 + t_min * Second;
  Instant const b = t0 + t_max * Second;
  for (int degree = std::max(3, d); degree <= 17; ++degree) {
    D error_чебышёв;
    D error_monomial;
    auto const чебышёв =
        NewhallApproximationInЧебышёвBasis<D>(degree, qvs, a, b, error_чебышёв);
    auto const monomial = NewhallApproximationInMonomialBasis<P>(
        degree, pqvs, a, b,
        Chance(r, 0.5) ? Policy::AlwaysEstrin()
                       : Policy::AlwaysEstrinWithoutFMA(),
        error_monomial);
    // The coefficients of high degree amplify the rounding errors.
    double const tolerance =
        coefficient_scale * 1e-14 * 10 * std::pow(2.2, degree);
    VERIF(чебышёв->degree() == degree && monomial->degree() == degree,
          "newhall:degree", degree);
    // A polynomial of lower degree has no term in the highest degree.
    if (degree > d) {
      Max("Newhall error estimate, relative to tolerance",
          error_чебышёв.Norm() / Metre / tolerance);
      VERIF(error_чебышёв.Norm() / Metre <= tolerance &&
                error_monomial.Norm() / Metre <= tolerance,
            "newhall:error estimate", error_чебышёв << " " << error_monomial);
    }
    for (int k = 0; k <= 20; ++k) {
      double const s = k == 0 ? t_min : k == 20 ? t_max
                                                : Uniform(r, t_min, t_max);
      Instant const t = t0 + s * Second;
      double const e1 = ((*чебышёв)(t) - exact(t)).Norm() / Metre;
      double const e2 =
          ((*monomial)(t) - World::origin - exact(t)).Norm() / Metre;
      double const e3 = (чебышёв->EvaluateDerivative(t) -
                         exact.EvaluateDerivative(t)).Norm() /
                        (Metre / Second) * duration;
      double const e4 = (monomial->EvaluateDerivative(t) -
                         exact.EvaluateDerivative(t)).Norm() /
                        (Metre / Second) * duration;
      Max("Newhall error, relative to tolerance",
          std::max({e1, e2, e3 / 100, e4 / 100}) / tolerance);
      VERIF(e1 <= tolerance, "newhall:чебышёв",
            "degree " << degree << " error " << e1 << " at " << s);
      VERIF(e2 <= tolerance, "newhall:monomial",
            "degree " << degree << " error " << e2 << " at " << s);
      VERIF(e3 <= 100 * tolerance, "newhall:чебышёв velocity",
            "degree " << degree << " error " << e3 << " at " << s);
      VERIF(e4 <= 100 * tolerance, "newhall:monomial velocity",
            "degree " << degree << " error " << e4 << " at " << s);
    }
  }
  // Functions that are not polynomials: both bases give the same approximation,
  // which is exact at the ends and close in between.
  double const ω = Uniform(r, 0.1, 3) / duration;
  auto f = [&](double const s) {
    return D({std::cos(ω * (s - t_min)) * Metre, std::sin(ω * s) * Metre,
              std::exp(-ω * (s - t_min)) * Metre});
  };
  auto df = [&](double const s) {
    return Velocity<World>({-ω * std::sin(ω * (s - t_min)) * Metre / Second,
                            ω * std::cos(ω * s) * Metre / Second,
                            -ω * std::exp(-ω * (s - t_min)) * Metre / Second});
  };
  qvs.clear();
  for (int k = 0; k <= 8; ++k) {
    double const s = t_min + k * duration / 8;
    qvs.push_back({f(s), df(s)});
  }
  double previous_worst = std::numeric_limits<double>::infinity();
  for (int degree = 3; degree <= 17; ++degree) {
    D error;
    auto const чебышёв =
        NewhallApproximationInЧебышёвBasis<D>(degree, qvs, a, b, error);
    D error_monomial;
    auto const monomial = NewhallApproximationInMonomialBasis<D>(
        degree, qvs, a, b, Policy::AlwaysEstrin(), error_monomial);
    double worst = 0;
    for (int k = 0; k <= 16; ++k) {
      double const s = t_min + k * duration / 16;
      Instant const t = t0 + s * Second;
      worst = std::max(worst, ((*чебышёв)(t) - f(s)).Norm() / Metre);
      double const discrepancy =
          ((*чебышёв)(t) - (*monomial)(t)).Norm() / Metre;
      VERIF(discrepancy <= 1e-14 * 10 * std::pow(2.2, degree), "newhall:bases",
            "degree " << degree << " discrepancy " << discrepancy);
    }
    for (double const s : {t_min, t_max}) {
      double const e = ((*чебышёв)(t0 + s * Second) - f(s)).Norm() / Metre;
      VERIF(e <= 1e-14 * 10 * std::pow(2.2, degree), "newhall:ends",
            "degree " << degree << " error " << e);
    }
    VERIF(worst <= std::max(previous_worst * 20, 1e-8), "newhall:convergence",
          "degree " << degree << " error " << worst << " then "
                    << previous_worst);
    if (degree == 3) {
      VERIF(worst < 0.5, "newhall:function", worst);
    }
    if (degree >= 13) {
      VERIF(worst < 1e-6, "newhall:function", "degree " << degree << " error "
                                                        << worst);
    }
    previous_worst = std::min(previous_worst, worst);
  }
  Case(Str("newhall ", d, " ", t_min, " ", duration, " ", r()));
}

void Hermite(Rng& r) {
  double const duration = std::ldexp(Uniform(r, 0.5, 1),
                                     static_cast<int>(Int(r, -5, 20)));
  double const t1 = Uniform(r, -5, 5) * duration;
  double const t2 = t1 + duration;
  SetCase(Str("hermite [", t1, ", ", t2, "] ", r()));
  Instant const a = t0 + t1 * Second;
  Instant const b = t0 + t2 * Second;
  double const Δ = (b - a) / Second;
  auto length = [&]() { return Uniform(r, -5, 5) * Metre; };
  auto speed = [&]() { return Uniform(r, -15, 15) / Δ * Metre / Second; };
  auto displacement = [&]() { return D({length(), length(), length()}); };
  auto velocity = [&]() { return Velocity<World>({speed(), speed(), speed()}); };
  double const ε = 1e-12;
  // The argument is rounded to the precision of the bounds.
  double const argument_error =
      (std::abs(t1) + std::abs(t2)) * u * 4 / Δ * 100;
  {
    auto const v1 = length();
    auto const v2 = length();
    auto const d1 = speed();
    // The interval may be given backwards.
    bool const reversed = Chance(r, 0.5);
    Hermite2<Length, Instant> const h(reversed ? std::pair{b, a}
                                               : std::pair{a, b},
                                      {v1, v2}, d1);
    Instant const& first = reversed ? b : a;
    Instant const& second = reversed ? a : b;
    VERIF(Abs(h.Evaluate(first) - v1) <= ε * Metre, "hermite2:first", "");
    VERIF(Abs(h.Evaluate(second) - v2) <= 50 * ε * Metre, "hermite2:second", "");
    VERIF(Abs(h.EvaluateDerivative(first) - d1) <= ε * Metre / Second / Δ * 50,
          "hermite2:derivative", "");
    auto const extremum = h.FindExtremum();
    if (Abs(extremum - first) < 100 * Δ * Second) {
      VERIF(Abs(h.EvaluateDerivative(extremum)) <=
                (1e-8 + argument_error) * Metre / Second / Δ,
            "hermite2:extremum", h.EvaluateDerivative(extremum));
    }
    Hermite2<Length, Instant> const degenerate({a, a}, {v1, v1}, d1);
    VERIF(degenerate.Evaluate(a) == v1 && degenerate.EvaluateDerivative(a) == d1,
          "hermite2:degenerate", "");
  }
  auto conditions = [&](auto const& h, auto const& v1, auto const& v2,
                        auto const& d1, auto const& d2, double const scale) {
    VERIF(Norm(h(a) - v1) <= ε * Metre, "hermite3:first", h(a) - v1);
    VERIF(Norm(h(b) - v2) <= scale * Metre, "hermite3:second", h(b) - v2);
    VERIF(Norm(h.EvaluateDerivative(a) - d1) <= ε / Δ * Metre / Second,
          "hermite3:first derivative", "");
    VERIF(Norm(h.EvaluateDerivative(b) - d2) <= 10 * scale / Δ * Metre / Second,
          "hermite3:second derivative", h.EvaluateDerivative(b) - d2);
    auto value = v1;
    auto derivative = d1;
    Instant const t = a + Uniform(r, 0, 1) * (b - a);
    h.EvaluateWithDerivative(t, value, derivative);
    VERIF(value == h(t) && derivative == h.EvaluateDerivative(t),
          "hermite3:with derivative", "");
  };
  {
    auto const v1 = length();
    auto const v2 = length();
    auto const d1 = speed();
    auto const d2 = speed();
    Hermite3<Length, Instant> const h({a, b}, {v1, v2}, {d1, d2});
    conditions(h, v1, v2, d1, d2, 100 * ε);
    auto const extrema = h.FindExtrema();
    std::vector<double> roots;
    for (auto const& t : extrema) {
      VERIF(a <= t && t <= b, "hermite3:extrema range", t - a);
      if (!roots.empty()) {
        VERIF(roots.back() <= (t - a) / Second, "hermite3:extrema order", "");
      }
      roots.push_back((t - a) / Second);
      VERIF(Abs(h.EvaluateDerivative(t)) <=
                (1e-6 + argument_error) / Δ * Metre / Second,
            "hermite3:extrema value", h.EvaluateDerivative(t) * (Δ * Second));
    }
    Count("extrema", roots.size());
    // All the changes of sign of the derivative are found.
    double largest_interior = 0;
    double largest = 0;
    int const steps = 200;
    for (int k = 0; k <= steps; ++k) {
      Instant const s = a + k * (b - a) / steps;
      double const value = std::abs(h(s) / Metre);
      largest = std::max(largest, value);
      if (k == steps) {
        break;
      }
      Instant const s2 = a + (k + 1) * (b - a) / steps;
      double const dv1 = h.EvaluateDerivative(s) / (Metre / Second) * Δ;
      double const dv2 = h.EvaluateDerivative(s2) / (Metre / Second) * Δ;
      if (std::abs(dv1) > 1e-3 && std::abs(dv2) > 1e-3 && (dv1 > 0) != (dv2 > 0)
          && k > 0 && k < steps - 1) {
        bool found = false;
        for (double const root : roots) {
          found |= root >= (s - a) / Second - 1e-6 * Δ &&
                   root <= (s2 - a) / Second + 1e-6 * Δ;
        }
        VERIF(found, "hermite3:extrema missing",
              (s - a) / Second << " " << roots.size());
      }
    }
    for (double const root : roots) {
      largest_interior = std::max(
          largest_interior, std::abs(h(a + root * Second) / Metre));
    }
    // The function does not look at the bounds of the interval, see DESIGN.md.
    double const bound = h.LInfinityL₁NormUpperBound() / Metre;
    VERIF(bound >= largest_interior * (1 - 1e-9) - 1e-9,
          "hermite3:L1 bound", bound << " vs " << largest_interior);
    VERIF(bound <= largest_interior * (1 + 1e-9) + 1e-9 ||
              bound <= largest * (1 + 1e-3) + 1e-3,
          "hermite3:L1 bound:excessive", bound << " vs " << largest);
  }
  {
    auto const v1 = displacement();
    auto const v2 = displacement();
    auto const d1 = velocity();
    auto const d2 = velocity();
    Hermite3<D, Instant> const h({a, b}, {v1, v2}, {d1, d2});
    conditions(h, v1, v2, d1, d2, 300 * ε);
    // Positions, and differences.
    Hermite3<P, Instant> const hp({a, b}, {World::origin + v1,
                                           World::origin + v2}, {d1, d2});
    auto const d3 = velocity();
    auto const d4 = velocity();
    Hermite3<P, Instant> const hp2({a, b}, {World::origin + v2,
                                            World::origin + v1}, {d3, d4});
    auto const difference = hp - hp2;
    Hermite3<D, Instant> const h2({a, b}, {v2, v1}, {d3, d4});
    auto const sum = h + h2;
    auto const opposite = -h;
    using Sample = std::pair<Instant, P>;
    std::vector<Sample> samples;
    double worst = 0;
    int const n = static_cast<int>(Int(r, 0, 30));
    double const noise = std::ldexp(1, -static_cast<int>(Int(r, 0, 20)));
    for (int k = 0; k < n; ++k) {
      Instant const t = a + Uniform(r, 0, 1) * (b - a);
      D const e = displacement() * noise;
      samples.push_back({t, hp(t) + e});
      worst = std::max(worst, (samples.back().second - hp(t)).Norm() / Metre);
      VERIF((difference(t) - (hp(t) - hp2(t))).Norm() <= 100 * ε * Metre,
            "hermite3:difference", "");
      VERIF((sum(t) - (h(t) + h2(t))).Norm() <= 100 * ε * Metre, "hermite3:sum",
            "");
      VERIF(opposite(t) == -h(t), "hermite3:opposite", "");
    }
    auto const get_argument =
        [](Sample const& s) -> Instant const& { return s.first; };
    auto const get_value = [](Sample const& s) -> P const& { return s.second; };
    double const error =
        hp.LInfinityL₂Error<std::vector<Sample>>(samples, get_argument,
                                                 get_value) / Metre;
    VERIF(error == worst, "hermite3:L₂ error", error << " vs " << worst);
    for (double const factor : {0.5, 0.999, 1.001, 2.0}) {
      double const tolerance = worst * factor;
      bool const within = hp.LInfinityL₂ErrorIsWithin<std::vector<Sample>>(
          samples, get_argument, get_value, tolerance * Metre);
      VERIF(within == (n == 0 || worst < tolerance), "hermite3:is within",
            worst << " " << tolerance);
    }
  }
  {
    // The norm, for a polynomial that vanishes at its lower bound.
    auto const v2 = displacement();
    auto const d2 = velocity();
    Hermite3<D, Instant> const h({a, b}, {D{}, v2}, {Velocity<World>{}, d2});
    double const norm = h.LInfinityL₂Norm() / Metre;
    double sampled = 0;
    for (int k = 0; k <= 1000; ++k) {
      Instant const t = k == 1000 ? b : a + k * (b - a) / 1000;
      sampled = std::max(sampled, h(t).Norm() / Metre);
    }
    VERIF(norm >= sampled * (1 - 1e-9), "hermite3:L₂ norm:too small",
          norm << " vs " << sampled);
    VERIF(norm <= sampled * (1 + 1e-3), "hermite3:L₂ norm:too large",
          norm << " vs " << sampled);
  }
  Case(Str("hermite ", t1, " ", t2, " ", r()));
}

void HermiteFinding() {
  // A cubic whose largest value is at a bound of the interval.
  SetCase("hermite3 from 3 kg to -5 kg");
  Hermite3<Mass, Instant> const h({t0, t0 + 3 * Second},
                                  {3 * Kilogram, -5 * Kilogram},
                                  {2 * Kilogram / Second,
                                   -1 * Kilogram / Second});
  double const bound = h.LInfinityL₁NormUpperBound() / Kilogram;
  VERIF(bound >= 5, "hermite3:L1 bound ignores the ends:3 kg to -5 kg",
        bound << " is not an upper bound of 5");
}

void Approximation(Rng& r) {
  double const width = std::ldexp(Uniform(r, 0.5, 1),
                                  static_cast<int>(Int(r, -3, 10)));
  double const lower = Uniform(r, -3, 3) * width;
  double const upper = lower + width;
  double const ω = Uniform(r, 0.5, 20) / width;
  double const φ = Uniform(r, 0, 6);
  double const decay = Uniform(r, 0, 2) / width;
  int const kind = static_cast<int>(Int(r, 0, 3));
  double const max_error = std::ldexp(1, -static_cast<int>(Int(r, 5, 38)));
  // For `kind` 3, a polynomial.
  int const function_degree = static_cast<int>(Int(r, 0, 40));
  std::vector<double> function_coefficients;
  for (int j = 0; j <= function_degree; ++j) {
    function_coefficients.push_back(Uniform(r, -1, 1) *
                                    std::exp(-decay * width * j));
  }
  // The error is estimated by comparing two interpolants: the estimate is only
  // meaningful for a function that doesn't hide between their points, and is
  // right for a polynomial that the finer interpolant reproduces.
  bool const tame = kind < 3 && ω * width < 3;
  double const slack = kind == 3 ? 1 : 10;
  SetCase(Str("approximation [", lower, ", ", upper, "] ω ", ω, " φ ", φ,
              " decay ", decay, " kind ", kind, " error ", max_error));
  std::int64_t evaluations = 0;
  bool out_of_range = false;
  Instant const a = t0 + lower * Second;
  Instant const b = t0 + upper * Second;
  auto f = [&](Instant const& t) -> Length {
    double const s = (t - t0) / Second;
    ++evaluations;
    // A Lobatto point may be off by a rounding.
    out_of_range |= s < lower - 1e-12 * width || s > upper + 1e-12 * width;
    switch (kind) {
      case 0:
        return std::cos(ω * s + φ) * std::exp(-decay * (s - lower)) * Metre;
      case 1:
        return 1 / (1 + ω * ω * (s - (lower + upper) / 2) *
                            (s - (lower + upper) / 2)) * Metre;
      case 3: {
        double const x = 2 * (s - lower) / width - 1;
        double value = 0;
        for (int j = 0; j <= function_degree; ++j) {
          value += function_coefficients[j] *
                   std::cos(j * std::acos(std::clamp(x, -1.0, 1.0)));
        }
        return value * Metre;
      }
      default:
        return std::sin(φ + ω * (s - lower) * (s - lower) / width) * Metre;
    }
  };
  Length error_estimate;
  auto const p = ЧебышёвPolynomialInterpolant<64>(
      f, a, b, max_error * Metre, &error_estimate);
  VERIF(p->lower_bound() == a && p->upper_bound() == b,
        "approximation:bounds", "");
  VERIF(p->degree() <= 64, "approximation:degree", p->degree());
  auto sample = [&](auto const& p) {
    double worst = 0;
    for (int k = 0; k <= 200; ++k) {
      Instant const t =
          k == 200 ? p.upper_bound()
                   : p.lower_bound() +
                         (p.upper_bound() - p.lower_bound()) * k / 200;
      worst = std::max(worst, std::abs((p(t) - f(t)) / Metre));
    }
    return worst;
  };
  double const worst = sample(*p);
  if ((tame && p->degree() >= 8) ||
      (kind == 3 && function_degree <= 2 * p->degree())) {
    Max("interpolation error, relative to the estimate",
        worst / (error_estimate / Metre + 1e-12));
    VERIF(worst <= slack * (error_estimate / Metre) + 1e-11,
          "approximation:error", worst << " estimated as " << error_estimate
                                       << ", degree " << p->degree());
  }
  std::int64_t refusals = 0;
  int const limit = static_cast<int>(Int(r, 0, 40));
  SubdivisionPredicate<Length, Instant> const subdivide =
      [&](PolynomialInЧебышёвBasis<Length, Instant> const& interpolant,
          Length const& estimate) {
        VERIF(estimate > max_error * Metre, "approximation:predicate",
              "called for an error of " << estimate);
        ++refusals;
        return refusals <= limit || limit > 10;
      };
  Length adaptive_estimate;
  auto const pieces = AdaptiveЧебышёвPolynomialInterpolant<8>(
      f, a, b, max_error * Metre, subdivide, &adaptive_estimate);
  VERIF(!pieces.empty() && pieces.front()->lower_bound() == a &&
            pieces.back()->upper_bound() == b,
        "approximation:adaptive bounds", pieces.size());
  for (std::size_t k = 0; k < pieces.size(); ++k) {
    VERIF(pieces[k]->lower_bound() < pieces[k]->upper_bound(),
          "approximation:adaptive interval", k);
    if (k > 0) {
      VERIF(pieces[k - 1]->upper_bound() == pieces[k]->lower_bound(),
            "approximation:adaptive contiguity", k);
    }
    VERIF(pieces[k]->degree() <= 8, "approximation:adaptive degree",
          pieces[k]->degree());
    if (adaptive_estimate <= max_error * Metre &&
        ((tame && pieces[k]->degree() >= 8) ||
         (kind == 3 && function_degree <= 2 * pieces[k]->degree()))) {
      double const worst_piece = sample(*pieces[k]);
      VERIF(worst_piece <= slack * max_error + 1e-11, "approximation:adaptive error",
            worst_piece << " for a maximum of " << max_error);
    }
  }
  if (limit > 10) {
    VERIF(adaptive_estimate <= max_error * Metre,
          "approximation:adaptive estimate", adaptive_estimate);
  }
  Count("interpolants", pieces.size());
  // The streaming version yields the same pieces, and stops on demand.
  std::size_t const stop_after = static_cast<std::size_t>(
      Int(r, 1, static_cast<std::int64_t>(pieces.size()) + 1));
  std::size_t seen = 0;
  refusals = 0;
  TerminationPredicate<Length, Instant> const stop =
      [&](not_null<std::unique_ptr<PolynomialInЧебышёвBasis<Length, Instant>>>
              interpolant) {
        VERIF(seen < pieces.size() &&
                  interpolant->lower_bound() == pieces[seen]->lower_bound() &&
                  interpolant->upper_bound() == pieces[seen]->upper_bound() &&
                  (*interpolant)(interpolant->lower_bound()) ==
                      (*pieces[seen])(interpolant->lower_bound()),
              "approximation:streaming", seen);
        ++seen;
        return seen == stop_after;
      };
  Length streaming_estimate;
  StreamingAdaptiveЧебышёвPolynomialInterpolant<8>(
      f, a, b, max_error * Metre, subdivide, stop, &streaming_estimate);
  VERIF(seen == std::min(stop_after, pieces.size()),
        "approximation:streaming count", seen << " " << stop_after);
  VERIF(!out_of_range, "approximation:range", "");
  Case(Str("approximation ", lower, " ", ω, " ", max_error, " ", kind),
       pieces.size() > 1);
}

void Lobatto() {
  auto check = [](auto const tag) {
    constexpr int n = decltype(tag)::value;
    F const pi = 3.14159265358979323846264338327950288Q;
    for (int k = 1; k < n; k += 2) {
      double const expected = static_cast<double>(cosq(pi * k / n));
      double const actual = ЧебышёвLobattoPoint<n>(k);
      VERIF(std::abs(actual - expected) <= 4e-16, "lobatto",
            n << " " << k << " " << actual);
      CaseHash(n * 1000 + k);
    }
  };
  check(std::integral_constant<int, 2>());
  check(std::integral_constant<int, 4>());
  check(std::integral_constant<int, 8>());
  check(std::integral_constant<int, 16>());
  check(std::integral_constant<int, 32>());
  check(std::integral_constant<int, 64>());
  check(std::integral_constant<int, 128>());
}

void Body() {
#if defined(MONOMIAL)
  if (Selected("monomial")) {
    auto r = MakeRng("monomial");
    for (std::int64_t i = 0; i < N(150); ++i) {
#if MONOMIAL == 1
      Monomial<Length, 1>(r);
      Monomial<Length, 2>(r);
      Monomial<Length, 4>(r);
      Monomial<Length, 12>(r);
#else
      Monomial<P, 1>(r);
      Monomial<P, 5>(r);
      Monomial<P, 10>(r);
#endif
    }
  }
#endif
#if defined(ALGEBRA)
  if (Selected("algebra")) {
    auto r = MakeRng("algebra");
    for (std::int64_t i = 0; i < N(200); ++i) {
      Algebra<1, 1>(r);
      Algebra<2, 5>(r);
      Algebra<3, 4>(r);
      Algebra<6, 2>(r);
    }
  }
#endif
#if defined(CHEBYSHEV)
  if (Selected("чебышёв")) {
    auto r = MakeRng("чебышёв");
    for (std::int64_t i = 0; i < N(120); ++i) {
      Чебышёв<Length, 1>(r);
      Чебышёв<Length, 3>(r);
      Чебышёв<Length, 6>(r);
      Чебышёв<Length, 11>(r);
      Чебышёв<D, 9>(r);
      Чебышёв<D, 17>(r);
    }
  }
#endif
#if defined(NEWHALL)
  if (Selected("newhall")) {
    auto r = MakeRng("newhall");
    for (std::int64_t i = 0; i < N(15); ++i) {
      Newhall<1>(r);
      Newhall<3>(r);
      Newhall<9>(r);
      Newhall<17>(r);
    }
  }
#endif
#if defined(REST)
  if (Selected("hermite")) {
    auto r = MakeRng("hermite");
    HermiteFinding();
    for (std::int64_t i = 0; i < N(1000); ++i) {
      Hermite(r);
    }
  }
#endif
#if defined(REST)
  if (Selected("approximation")) {
    auto r = MakeRng("approximation");
    Lobatto();
    for (std::int64_t i = 0; i < N(150); ++i) {
      Approximation(r);
    }
  }
#endif
}

}  // namespace

VERIF_MAIN(Body)
