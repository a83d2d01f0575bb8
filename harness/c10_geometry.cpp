// The maps between frames, the algebra of multivectors and forms, and the
// perspective, against explicit matrices in extended precision.

#include <absl/synchronization/mutex.h>

#include <array>
#include <cmath>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "geometry/affine_map.hpp"
#include "geometry/barycentre_calculator.hpp"
#include "geometry/conformal_map.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/homothecy.hpp"
#include "geometry/identity.hpp"
#include "geometry/interval.hpp"
#include "geometry/orthogonal_map.hpp"
#include "geometry/permutation.hpp"
#include "geometry/perspective.hpp"
#include "geometry/plane.hpp"
#include "geometry/quaternion.hpp"
#include "geometry/r3_element.hpp"
#include "geometry/r3x3_matrix.hpp"
#include "geometry/rotation.hpp"
#include "geometry/rp2_point.hpp"
#include "geometry/sign.hpp"
#include "geometry/signature.hpp"
#include "geometry/space.hpp"
#include "geometry/space_transformations.hpp"
#include "geometry/sphere.hpp"
#include "geometry/symmetric_bilinear_form.hpp"
#include "numerics/elementary_functions.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/geometry.pb.h"
#include "verif.hpp"

namespace verif {

using namespace principia::geometry::_affine_map;
using namespace principia::geometry::_barycentre_calculator;
using namespace principia::geometry::_conformal_map;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_homothecy;
using namespace principia::geometry::_interval;
using namespace principia::geometry::_orthogonal_map;
using namespace principia::geometry::_permutation;
using namespace principia::geometry::_perspective;
using namespace principia::geometry::_plane;
using namespace principia::geometry::_point;
using namespace principia::geometry::_quaternion;
using namespace principia::geometry::_r3_element;
using namespace principia::geometry::_r3x3_matrix;
using namespace principia::geometry::_rotation;
using namespace principia::geometry::_rp2_point;
using namespace principia::geometry::_sign;
using namespace principia::geometry::_signature;
using namespace principia::geometry::_space;
using namespace principia::geometry::_space_transformations;
using namespace principia::geometry::_sphere;
using namespace principia::geometry::_symmetric_bilinear_form;
using namespace principia::numerics::_elementary_functions;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
template<typename F, typename T>
using Id = principia::geometry::_identity::Identity<F, T>;
namespace serialization = principia::serialization;
using principia::π;
using PFrame = serialization::Frame;

using R1 = Frame<PFrame::TestTag, Inertial, Handedness::Right, PFrame::TEST>;
using R2 = Frame<PFrame::TestTag, Inertial, Handedness::Right, PFrame::TEST1>;
using R3 = Frame<PFrame::TestTag, Inertial, Handedness::Right, PFrame::TEST2>;
using L1 = Frame<PFrame::TestTag, Inertial, Handedness::Left, PFrame::TEST3>;
using L2 = Frame<PFrame::TestTag, Inertial, Handedness::Left, PFrame::FROM>;
using L3 = Frame<PFrame::TestTag, Inertial, Handedness::Left, PFrame::TO>;

using LD = long double;

bool Verify(bool const condition,
            std::string const& key,
            std::string const& detail) {
  VERIF(condition, key, detail);
  return condition;
}
using V3 = std::array<LD, 3>;
using M3 = std::array<V3, 3>;

M3 const unit = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};

V3 operator*(M3 const& m, V3 const& v) {
  V3 r{};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      r[i] += m[i][j] * v[j];
    }
  }
  return r;
}
M3 operator*(M3 const& a, M3 const& b) {
  M3 r{};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      for (int k = 0; k < 3; ++k) {
        r[i][j] += a[i][k] * b[k][j];
      }
    }
  }
  return r;
}
M3 operator*(LD const s, M3 m) {
  for (auto& row : m) {
    for (auto& x : row) {
      x *= s;
    }
  }
  return m;
}
V3 operator*(LD const s, V3 v) {
  for (auto& x : v) {
    x *= s;
  }
  return v;
}
V3 operator+(V3 const& a, V3 const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
V3 operator-(V3 const& a, V3 const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
LD DotL(V3 const& a, V3 const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
V3 CrossL(V3 const& a, V3 const& b) {
  return {a[1] * b[2] - a[2] * b[1],
          a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}
LD NormL(V3 const& a) { return std::sqrt(DotL(a, a)); }
M3 T(M3 const& m) {
  M3 r;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      r[i][j] = m[j][i];
    }
  }
  return r;
}
LD Det(M3 const& m) { return DotL(m[0], CrossL(m[1], m[2])); }
LD NormF(M3 const& m) {
  return std::sqrt(DotL(m[0], m[0]) + DotL(m[1], m[1]) + DotL(m[2], m[2]));
}
M3 InverseL(M3 const& m) {
  V3 const a = CrossL(m[1], m[2]);
  V3 const b = CrossL(m[2], m[0]);
  V3 const c = CrossL(m[0], m[1]);
  return (1 / Det(m)) * T(M3{a, b, c});
}
// Active rotation.
M3 RotationL(V3 axis, LD const angle) {
  LD const n = NormL(axis);
  axis = (1 / n) * axis;
  LD const c = std::cos(angle);
  LD const s = std::sin(angle);
  M3 r;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      r[i][j] = (1 - c) * axis[i] * axis[j] + (i == j ? c : 0);
    }
  }
  r[0][1] -= s * axis[2];
  r[0][2] += s * axis[1];
  r[1][0] += s * axis[2];
  r[1][2] -= s * axis[0];
  r[2][0] -= s * axis[1];
  r[2][1] += s * axis[0];
  return r;
}

template<typename S>
V3 ToV3(R3Element<S> const& r) {
  return {static_cast<LD>(r.x / si::Unit<S>),
          static_cast<LD>(r.y / si::Unit<S>),
          static_cast<LD>(r.z / si::Unit<S>)};
}
template<typename S, typename F, int r>
V3 ToV3(Multivector<S, F, r> const& m) {
  return ToV3(m.coordinates());
}
template<typename S>
M3 ToM3(R3x3Matrix<S> const& m) {
  M3 r;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      r[i][j] = m(i, j) / si::Unit<S>;
    }
  }
  return r;
}

V3 RandomV3(Rng& r, bool const wide = false) {
  V3 v;
  do {
    for (auto& x : v) {
      x = static_cast<double>(
          wide ? LogUniform(r, -20, 20) : Uniform(r, -1.0, 1.0));
      if (Chance(r, 0.1)) {
        x = 0;
      }
    }
  } while (NormL(v) == 0);
  return v;
}
template<typename S>
R3Element<S> FromV3(V3 const& v) {
  return R3Element<S>(static_cast<double>(v[0]) * si::Unit<S>,
                      static_cast<double>(v[1]) * si::Unit<S>,
                      static_cast<double>(v[2]) * si::Unit<S>);
}

std::string StrV(V3 const& v) {
  std::ostringstream s;
  s.precision(17);
  s << "(" << v[0] << ", " << v[1] << ", " << v[2] << ")";
  return s.str();
}
std::string StrM(M3 const& m) {
  return "[" + StrV(m[0]) + StrV(m[1]) + StrV(m[2]) + "]";
}

bool CheckV(V3 const& actual,
            V3 const& expected,
            LD const scale,
            std::string const& key,
            double const tolerance = 2e-14) {
  LD const error = NormL(actual - expected) / (scale == 0 ? 1 : scale);
  Max(key.substr(0, key.find(':')), static_cast<double>(error));
  return Verify(error <= tolerance, key,
               StrV(actual) + " vs " + StrV(expected) + ", " +
                   Str(static_cast<double>(error)));
}

template<typename F>
constexpr char const* FrameName() {
  return F::handedness == Handedness::Right ? "R" : "L";
}

// A map and its matrix.
template<typename Map>
struct Modelled {
  Map map;
  M3 matrix;
};

double AsDouble(Sign const s) { return s.is_positive() ? 1 : -1; }
template<typename S>
double AsDouble(S const& s) {
  return s / si::Unit<S>;
}

template<typename>
struct Frames;
template<template<typename, typename> typename Map, typename F, typename To>
struct Frames<Map<F, To>> {
  using From = F;
  using Into = To;
};
template<template<typename, typename, typename> typename Map,
         typename S, typename F, typename To>
struct Frames<Map<S, F, To>> {
  using From = F;
  using Into = To;
};

template<typename Map>
void CheckAction(Rng& r, std::string const& kind, Map const& map, M3 const& m) {
  using From = typename Frames<Map>::From;
  using To = typename Frames<Map>::Into;
  LD const det = Det(m);
  LD const scale = std::cbrt(std::abs(det));
  LD const sign = det < 0 ? -1 : 1;
  M3 const orthogonal = (1 / scale) * m;
  for (int i = 0; i < 2; ++i) {
    V3 const v = RandomV3(r, i == 1);
    V3 const w = RandomV3(r);
    CheckV(ToV3(map(Vector<Length, From>(FromV3<Length>(v)))),
           m * v, NormL(v) * scale, kind + ": vector");
    CheckV(ToV3(map(Vector<double, From>(FromV3<double>(w)))),
           m * w, NormL(w) * scale, kind + ": dimensionless vector");
    CheckV(ToV3(map(AngularVelocity<From>(FromV3<AngularFrequency>(v)))),
           sign * (orthogonal * v), NormL(v), kind + ": angular velocity");
    if constexpr (requires { map(Bivector<Length, From>()); }) {
      CheckV(ToV3(map(Bivector<Length, From>(FromV3<Length>(v)))),
             sign * (orthogonal * v), NormL(v), kind + ": bivector");
      // The map is a morphism of the algebra.
      Vector<Length, From> const a(FromV3<Length>(v));
      Vector<double, From> const b(FromV3<double>(w));
      CheckV(ToV3(map(Wedge(a, b))), ToV3(Wedge(map(a), map(b))),
             NormL(v) * NormL(w), kind + ": wedge");
    }
    if constexpr (requires { map(Trivector<Length, From>()); }) {
      VERIF(static_cast<LD>(
                map(Trivector<Length, From>(static_cast<double>(v[0]) *
                                            Metre)).coordinates() / Metre) ==
                sign * v[0],
            kind + ": trivector", Str(static_cast<double>(v[0])));
    }
    if constexpr (requires {
                    map(SymmetricBilinearForm<Length, From, Vector>());
                  }) {
      M3 f;
      for (int p = 0; p < 3; ++p) {
        for (int q = 0; q <= p; ++q) {
          f[p][q] = f[q][p] = static_cast<double>(Uniform(r, -1.0, 1.0));
        }
      }
      auto const rows = R3x3Matrix<Length>(
          FromV3<Length>(f[0]), FromV3<Length>(f[1]), FromV3<Length>(f[2]));
      M3 const expected = m * f * T(m);
      M3 const vectors = ToM3(
          map(SymmetricBilinearForm<Length, From, Vector>(rows)).coordinates());
      M3 const bivectors = ToM3(
          map(SymmetricBilinearForm<Length, From, Bivector>(rows))
              .coordinates());
      for (int p = 0; p < 3; ++p) {
        CheckV(vectors[p], expected[p], 1, kind + ": form");
        CheckV(bivectors[p], expected[p], 1, kind + ": form on bivectors");
        for (int q = 0; q < 3; ++q) {
          VERIF(vectors[p][q] == vectors[q][p],
                kind + ": the image of a symmetric form is not symmetric",
                StrM(vectors));
        }
      }
    }
  }
  // The determinant of a conformal map is the cube of its scale, whatever the
  // orientations: the project's tests say so.
  bool constexpr is_conformal = requires { map.scale(); };
  VERIF(std::abs(AsDouble(map.Determinant()) -
                 (is_conformal ? std::abs(det) : det)) <=
            1e-14 * std::abs(det),
        kind + ": determinant",
        Str(AsDouble(map.Determinant())) + " " + Str(static_cast<double>(det)));
}

template<typename Map>
void CheckMap(Rng& r, std::string const& name, Map const& map, M3 const& m) {
  using From = typename Frames<Map>::From;
  using To = typename Frames<Map>::Into;
  std::string const kind =
      name + "<" + FrameName<From>() + "," + FrameName<To>() + ">";
  Case(kind + StrM(m));
  CheckAction(r, kind, map, m);
  CheckAction(r, kind + " inverse", map.Inverse(), InverseL(m));

  // A dimensionless homothecy cannot be serialized.
  if constexpr (!std::is_same_v<Map, Homothecy<double, From, To>>) {
    serialization::LinearMap message;
    map.WriteToMessage(&message);
    auto const read = Map::ReadFromMessage(message);
    serialization::LinearMap again;
    read.WriteToMessage(&again);
    VERIF(message.SerializeAsString() == again.SerializeAsString(),
          kind + ": serialization is not stable", message.ShortDebugString());
    CheckAction(r, kind + " read", read, m);
  }

  if constexpr (!std::is_same_v<Map, OrthogonalMap<From, To>> &&
                requires { map.template Forget<OrthogonalMap>(); }) {
    CheckAction(r, kind + " as orthogonal",
                map.template Forget<OrthogonalMap>(), m);
    auto const orthogonal = map.template Forget<OrthogonalMap>();
    if constexpr (From::handedness == To::handedness) {
      CheckAction(r, kind + " as rotation", orthogonal.AsRotation(), m);
    }
  }
  if constexpr (requires { map.template Forget<ConformalMap>(); }) {
    auto const conformal = map.template Forget<ConformalMap>();
    CheckAction(r, kind + " as conformal", conformal, m);
    LD const det = Det(m);
    LD const scale = std::cbrt(std::abs(det));
    VERIF(std::abs(AsDouble(conformal.scale()) - scale) <= 1e-14 * scale,
          kind + ": scale", Str(AsDouble(conformal.scale())));
  }
}

// Random maps.

Quaternion RandomQuaternion(Rng& r) {
  double w = Uniform(r, -1.0, 1.0);
  V3 v = RandomV3(r);
  switch (Int(r, 0, 7)) {
    case 0:
      w = 0;
      break;
    case 1:
      v = static_cast<LD>(LogUniform(r, -60, -3)) * v;
      break;
    case 2:
      w = LogUniform(r, -60, -3);
      break;
    case 4:
      v = RandomV3(r, /*wide=*/true);
      w = Chance(r, 0.5) ? 0 : LogUniform(r, -20, 20);
      break;
    case 3:
      // The rotations of the cube.
      w = Int(r, -1, 1);
      v = {LD(Int(r, -1, 1)), LD(Int(r, -1, 1)), LD(Int(r, -1, 1))};
      if (w == 0 && NormL(v) == 0) {
        w = 1;
      }
      break;
  }
  return Normalize(Quaternion(w, FromV3<double>(v)));
}

M3 MatrixOf(Quaternion const& q) {
  LD const w = q.real_part();
  V3 const v = ToV3(q.imaginary_part());
  LD const n = w * w + DotL(v, v);
  M3 r;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      r[i][j] = 2 * v[i] * v[j] + (i == j ? w * w - DotL(v, v) : 0);
    }
  }
  r[0][1] -= 2 * w * v[2];
  r[0][2] += 2 * w * v[1];
  r[1][0] += 2 * w * v[2];
  r[1][2] -= 2 * w * v[0];
  r[2][0] -= 2 * w * v[1];
  r[2][1] += 2 * w * v[0];
  return (1 / n) * r;
}

Angle RandomAngle(Rng& r) {
  switch (Int(r, 0, 3)) {
    case 0:
      return Int(r, -8, 8) * π / 4 * Radian;
    case 1:
      return LogUniform(r, -40, 3) * Radian;
    default:
      return Uniform(r, -2 * π, 2 * π) * Radian;
  }
}

template<typename From, typename To>
Modelled<Rotation<From, To>> RandomRotation(Rng& r) {
  using Rot = Rotation<From, To>;
  auto const α = RandomAngle(r);
  auto const β = RandomAngle(r);
  auto const γ = RandomAngle(r);
  LD const a = α / Radian;
  LD const b = β / Radian;
  LD const c = γ / Radian;
  V3 const axis = RandomV3(r);
  if constexpr (std::is_same_v<From, To>) {
    switch (Int(r, 0, 2)) {
      case 0: {
        auto const q = RandomQuaternion(r);
        return {Rot(q), MatrixOf(q)};
      }
      case 1:
        return {Rot(α, Bivector<Length, From>(FromV3<Length>(axis))),
                RotationL(axis, a)};
      default: {
        LD const n = NormL(axis);
        return {Exp(Bivector<Angle, From>(FromV3<Angle>((a / n) * axis))),
                RotationL(axis, a)};
      }
    }
  } else {
    V3 const e[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    static constexpr EulerAngles euler[] = {
        EulerAngles::ZXZ, EulerAngles::XYX, EulerAngles::YZY,
        EulerAngles::ZYZ, EulerAngles::XZX, EulerAngles::YXY};
    static constexpr int euler_axes[6][3] = {
        {2, 0, 2}, {0, 1, 0}, {1, 2, 1}, {2, 1, 2}, {0, 2, 0}, {1, 0, 1}};
    static constexpr CardanoAngles cardano[] = {
        CardanoAngles::XYZ, CardanoAngles::YZX, CardanoAngles::ZXY,
        CardanoAngles::XZY, CardanoAngles::ZYX, CardanoAngles::YXZ};
    static constexpr int cardano_axes[6][3] = {
        {0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
    int const k = Int(r, 0, 5);
    auto const intrinsic = [&](int const (&axes)[3]) {
      return RotationL(e[axes[0]], a) * RotationL(e[axes[1]], b) *
             RotationL(e[axes[2]], c);
    };
    int const what = Int(r, 0, 8);
    Count(std::string("rotations built by constructor ") + std::to_string(what));
    switch (what) {
      case 0: {
        auto const q = RandomQuaternion(r);
        return {Rot(q), MatrixOf(q)};
      }
      case 1:
      case 2: {
        // The axes of one frame in the other.
        M3 m = MatrixOf(RandomQuaternion(r));
        M3 rounded;
        for (int i = 0; i < 3; ++i) {
          for (int j = 0; j < 3; ++j) {
            rounded[i][j] = static_cast<double>(m[i][j]);
          }
        }
        int const ranks = Int(r, 0, 2);
        if (what == 1) {
          // The rows of the matrix are the axes of `To` in `From`.
          Vector<double, From> const x(FromV3<double>(rounded[0]));
          Vector<double, From> const y(FromV3<double>(rounded[1]));
          Vector<double, From> const z(FromV3<double>(rounded[2]));
          Bivector<double, From> const bx(FromV3<double>(rounded[0]));
          Bivector<double, From> const by(FromV3<double>(rounded[1]));
          Bivector<double, From> const bz(FromV3<double>(rounded[2]));
          return {ranks == 0   ? Rot(x, y, bz)
                  : ranks == 1 ? Rot(bx, y, z)
                               : Rot(x, by, z),
                  m};
        } else {
          M3 const t = T(rounded);
          Vector<double, To> const x(FromV3<double>(t[0]));
          Vector<double, To> const y(FromV3<double>(t[1]));
          Vector<double, To> const z(FromV3<double>(t[2]));
          Bivector<double, To> const bx(FromV3<double>(t[0]));
          Bivector<double, To> const by(FromV3<double>(t[1]));
          Bivector<double, To> const bz(FromV3<double>(t[2]));
          return {ranks == 0   ? Rot(x, y, bz)
                  : ranks == 1 ? Rot(bx, by, bz)
                               : Rot(x, by, z),
                  m};
        }
      }
      case 3:
        return {Rot(α, Bivector<Length, From>(FromV3<Length>(axis)),
                    DefinesFrame<To>{}),
                T(RotationL(axis, a))};
      case 4:
        return {Rot(α, Bivector<Length, To>(FromV3<Length>(axis)),
                    DefinesFrame<From>{}),
                RotationL(axis, a)};
      case 5:
        return {Rot(α, β, γ, euler[k], DefinesFrame<To>{}),
                T(intrinsic(euler_axes[k]))};
      case 6:
        return {Rot(α, β, γ, euler[k], DefinesFrame<From>{}),
                intrinsic(euler_axes[k])};
      case 7:
        return {Rot(α, β, γ, cardano[k], DefinesFrame<To>{}),
                T(intrinsic(cardano_axes[k]))};
      default:
        return {Rot(α, β, γ, cardano[k], DefinesFrame<From>{}),
                intrinsic(cardano_axes[k])};
    }
  }
}

template<typename From, typename To>
Modelled<Permutation<From, To>> RandomPermutation(Rng& r) {
  int const k = Int(r, 0, 2);
  auto const matrix = [](int const x, int const y, int const z) {
    return M3{unit[x], unit[y], unit[z]};
  };
  if constexpr (From::handedness == To::handedness) {
    switch (k) {
      case 0:
        return {Permutation<From, To>(EvenPermutation::XYZ), matrix(0, 1, 2)};
      case 1:
        return {Permutation<From, To>(EvenPermutation::YZX), matrix(1, 2, 0)};
      default:
        return {Permutation<From, To>(EvenPermutation::ZXY), matrix(2, 0, 1)};
    }
  } else {
    switch (k) {
      case 0:
        return {Permutation<From, To>(OddPermutation::XZY), matrix(0, 2, 1)};
      case 1:
        return {Permutation<From, To>(OddPermutation::ZYX), matrix(2, 1, 0)};
      default:
        return {Permutation<From, To>(OddPermutation::YXZ), matrix(1, 0, 2)};
    }
  }
}

template<typename From, typename To>
Modelled<Signature<From, To>> RandomSignature(Rng& r) {
  auto const s1 = Chance(r, 0.5) ? Sign::Positive() : Sign::Negative();
  auto const s2 = Chance(r, 0.5) ? Sign::Positive() : Sign::Negative();
  constexpr double det = From::handedness == To::handedness ? 1 : -1;
  double const a = AsDouble(s1);
  double const b = AsDouble(s2);
  double const c = det * a * b;
  typename Signature<From, To>::DeduceSign const deduce;
  auto const diagonal = [](double const x, double const y, double const z) {
    return M3{V3{x, 0, 0}, V3{0, y, 0}, V3{0, 0, z}};
  };
  switch (Int(r, 0, 2)) {
    case 0:
      return {Signature<From, To>(s1, s2, deduce), diagonal(a, b, c)};
    case 1:
      return {Signature<From, To>(s1, deduce, s2), diagonal(a, c, b)};
    default:
      return {Signature<From, To>(deduce, s1, s2), diagonal(c, a, b)};
  }
}

// The orthogonal maps, by all the routes that make one.
template<typename From, typename To>
Modelled<OrthogonalMap<From, To>> RandomOrthogonal(Rng& r, int const depth = 2) {
  int const what = Int(r, 0, 3);
  if (what == 0 && depth > 0) {
    // A product.
    if (Chance(r, 0.5)) {
      auto const right = RandomOrthogonal<From, R3>(r, depth - 1);
      auto const left = RandomOrthogonal<R3, To>(r, depth - 1);
      return {left.map * right.map, left.matrix * right.matrix};
    } else {
      auto const right = RandomOrthogonal<From, L3>(r, depth - 1);
      auto const left = RandomOrthogonal<L3, To>(r, depth - 1);
      return {left.map * right.map, left.matrix * right.matrix};
    }
  }
  if (what == 1) {
    auto const p = RandomPermutation<From, To>(r);
    return {p.map.template Forget<OrthogonalMap>(), p.matrix};
  }
  if (what == 2) {
    auto const s = RandomSignature<From, To>(r);
    return {s.map.template Forget<OrthogonalMap>(), s.matrix};
  }
  if constexpr (From::handedness == To::handedness) {
    auto const q = RandomRotation<From, To>(r);
    return {q.map.template Forget<OrthogonalMap>(), q.matrix};
  } else {
    auto const s = RandomSignature<From, To>(r);
    auto const q = RandomRotation<To, To>(r);
    return {q.map.template Forget<OrthogonalMap>() *
                s.map.template Forget<OrthogonalMap>(),
            q.matrix * s.matrix};
  }
}

template<typename From, typename To>
Modelled<ConformalMap<double, From, To>> RandomConformal(Rng& r) {
  double const scale = std::abs(LogUniform(r, -10, 10));
  auto const o = RandomOrthogonal<From, To>(r);
  if (Chance(r, 0.5)) {
    auto const h = Homothecy<double, To, To>(scale);
    return {h.template Forget<ConformalMap>() *
                o.map.template Forget<ConformalMap>(),
            scale * o.matrix};
  } else {
    auto const h = Homothecy<double, From, From>(scale);
    return {o.map.template Forget<ConformalMap>() *
                h.template Forget<ConformalMap>(),
            scale * o.matrix};
  }
}

template<typename Left, typename Right>
void CheckProduct(Rng& r,
                  std::string const& name,
                  Left const& left,
                  Right const& right) {
  CheckMap(r, name, left.map * right.map, left.matrix * right.matrix);
}

template<typename A, typename B, typename C>
void Same(Rng& r) {
  {
    auto const f = RandomRotation<A, B>(r);
    auto const g = RandomRotation<B, C>(r);
    CheckMap(r, "rotation", f.map, f.matrix);
    CheckProduct(r, "rotation product", g, f);
    auto const h = RandomRotation<A, A>(r);
    CheckMap(r, "endorotation", h.map, h.matrix);
    // The axis and angle describe the rotation.
    auto const angle = h.map.RotationAngle();
    auto const axis = h.map.RotationAxis();
    VERIF(angle >= -π * Radian && angle <= π * (1 + 0x1p-52) * Radian,
          "rotation angle out of range", Str(angle / Radian));
    if (angle != 0 * Radian) {
      auto const again = Rotation<A, A>(angle, axis);
      CheckAction(r, "axis and angle of a rotation", again, h.matrix);
    } else {
      CheckAction(r, "rotation with zero angle", h.map, unit);
    }
    auto const identity = Rotation<A, B>::Identity();
    CheckMap(r, "identical rotation", identity, unit);
  }
  {
    Id<A, B> const f;
    Id<B, C> const g;
    CheckMap(r, "identity", f, unit);
    CheckMap(r, "identity product", g * f, unit);
    CheckMap(r, "identical permutation", Permutation<A, B>::Identity(), unit);
    CheckMap(r, "identical signature", Signature<A, B>::Identity(), unit);
    CheckMap(r, "identical orthogonal map",
             OrthogonalMap<A, B>::Identity(), unit);
    CheckMap(r, "identical conformal map",
             ConformalMap<double, A, B>::Identity(), unit);
  }
  {
    double const s = std::abs(LogUniform(r, -20, 20));
    double const t = std::abs(LogUniform(r, -20, 20));
    Homothecy<double, A, B> const f(s);
    Homothecy<double, B, C> const g(t);
    CheckMap(r, "homothecy", f, LD(s) * unit);
    CheckMap(r, "homothecy product", g * f, LD(s) * LD(t) * unit);
    Homothecy<Length, A, B> const h(s * Metre);
    CheckMap(r, "dimensional homothecy", h, LD(s) * unit);
    CheckMap(r, "dimensional homothecy product", g * h,
             LD(s) * LD(t) * unit);
    CheckMap(r, "identical homothecy",
             Homothecy<double, A, B>::Identity(), unit);
  }
}

template<typename A, typename B, typename C>
void Any(Rng& r) {
  {
    auto const f = RandomPermutation<A, B>(r);
    auto const g = RandomPermutation<B, C>(r);
    CheckMap(r, "permutation", f.map, f.matrix);
    CheckProduct(r, "permutation product", g, f);
  }
  {
    auto const f = RandomSignature<A, B>(r);
    auto const g = RandomSignature<B, C>(r);
    CheckMap(r, "signature", f.map, f.matrix);
    CheckProduct(r, "signature product", g, f);
  }
  {
    auto const f = RandomOrthogonal<A, B>(r);
    auto const g = RandomOrthogonal<B, C>(r);
    CheckMap(r, "orthogonal map", f.map, f.matrix);
    CheckProduct(r, "orthogonal map product", g, f);
  }
  {
    auto const f = RandomConformal<A, B>(r);
    auto const g = RandomConformal<B, C>(r);
    CheckMap(r, "conformal map", f.map, f.matrix);
    CheckProduct(r, "conformal map product", g, f);
    LD const scale = std::cbrt(std::abs(Det(f.matrix)));
    // Applies to multivectors that are once contravariant, once covariant.
    CheckAction(r, "orthogonal part of a conformal map",
                f.map.orthogonal_map¹₁(), (1 / scale) * f.matrix);
  }
  // Affine maps.
  {
    auto const f = RandomOrthogonal<A, B>(r);
    auto const g = RandomOrthogonal<B, C>(r);
    V3 const o1 = RandomV3(r);
    V3 const o2 = RandomV3(r);
    V3 const o3 = RandomV3(r);
    V3 const o4 = RandomV3(r);
    auto const position = [](auto const* frame, V3 const& v) {
      using F = std::remove_const_t<std::remove_pointer_t<decltype(frame)>>;
      return F::origin + Displacement<F>(FromV3<Length>(v));
    };
    A const* const a = nullptr;
    B const* const b = nullptr;
    C const* const c = nullptr;
    RigidTransformation<A, B> const rf(position(a, o1), position(b, o2), f.map);
    RigidTransformation<B, C> const rg(position(b, o3), position(c, o4), g.map);
    V3 const p = RandomV3(r);
    V3 const fp = f.matrix * (p - o1) + o2;
    V3 const gfp = g.matrix * (fp - o3) + o4;
    CheckV(ToV3(rf(position(a, p)) - B::origin), fp, 5, "affine map");
    CheckV(ToV3((rg * rf)(position(a, p)) - C::origin), gfp, 9,
           "affine map product");
    CheckV(ToV3(rf.Inverse()(position(b, fp)) - A::origin), p, 5,
           "affine map inverse");
    serialization::AffineMap message;
    rf.WriteToMessage(&message);
    auto const read = RigidTransformation<A, B>::ReadFromMessage(message);
    serialization::AffineMap again;
    read.WriteToMessage(&again);
    VERIF(message.SerializeAsString() == again.SerializeAsString(),
          "affine map: serialization is not stable",
          message.ShortDebugString());
    CheckV(ToV3(read(position(a, p)) - B::origin), fp, 5, "affine map read");
    auto const similarity = rf.template Forget<Similarity>();
    CheckV(ToV3(similarity(position(a, p)) - B::origin), fp, 5,
           "affine map as similarity");
    CheckV(ToV3(similarity.Inverse()(position(b, fp)) - A::origin), p, 5,
           "similarity inverse");
  }
}

void Maps() {
  auto r = MakeRng("maps");
  int const n = N(500);
  for (int i = 0; i < n; ++i) {
    SetCase("maps " + std::to_string(i));
    Same<R1, R2, R3>(r);
    Same<L1, L2, L3>(r);
    Any<R1, R2, R3>(r);
    Any<R1, R2, L3>(r);
    Any<R1, L2, R3>(r);
    Any<R1, L2, L3>(r);
    Any<L1, R2, R3>(r);
    Any<L1, R2, L3>(r);
    Any<L1, L2, R3>(r);
    Any<L1, L2, L3>(r);
  }
}

// Multivectors, forms, matrices.

M3 RandomSymmetric(Rng& r) {
  M3 f{};
  switch (Int(r, 0, 5)) {
    case 0: {
      // Nearly equal eigenvalues.
      M3 const q = MatrixOf(RandomQuaternion(r));
      LD const a = Uniform(r, -1.0, 1.0);
      LD const δ = LogUniform(r, -55, -1);
      LD const c = Chance(r, 0.5) ? a : LD(Uniform(r, -1.0, 1.0));
      M3 const d = {V3{a, 0, 0}, V3{0, a + δ, 0}, V3{0, 0, c}};
      f = q * d * T(q);
      break;
    }
    case 1: {
      // Graded.
      for (int p = 0; p < 3; ++p) {
        for (int q = 0; q <= p; ++q) {
          f[p][q] = LogUniform(r, -50, 50);
        }
      }
      break;
    }
    case 2: {
      for (int p = 0; p < 3; ++p) {
        for (int q = 0; q <= p; ++q) {
          f[p][q] = Int(r, -2, 2);
        }
      }
      break;
    }
    case 3:
      // Diagonal.
      for (int p = 0; p < 3; ++p) {
        f[p][p] = LogUniform(r, -10, 10);
      }
      break;
    default:
      for (int p = 0; p < 3; ++p) {
        for (int q = 0; q <= p; ++q) {
          f[p][q] = Uniform(r, -1.0, 1.0);
        }
      }
  }
  for (int p = 0; p < 3; ++p) {
    for (int q = 0; q <= p; ++q) {
      f[q][p] = f[p][q] = static_cast<double>(f[p][q]);
    }
  }
  return f;
}

template<typename S>
R3x3Matrix<S> FromM3(M3 const& m) {
  return R3x3Matrix<S>(FromV3<S>(m[0]), FromV3<S>(m[1]), FromV3<S>(m[2]));
}

void CheckM(M3 const& actual, M3 const& expected, LD const scale,
            std::string const& key, double const tolerance = 1e-14) {
  for (int i = 0; i < 3; ++i) {
    CheckV(actual[i], expected[i], scale, key, tolerance);
  }
}

void Algebra() {
  auto r = MakeRng("algebra");
  using F = R1;
  using Vector1 = Vector<double, F>;
  int const n = N(20'000);
  for (int i = 0; i < n; ++i) {
    V3 const u = RandomV3(r, Chance(r, 0.3));
    V3 v = RandomV3(r, Chance(r, 0.3));
    if (Chance(r, 0.2)) {
      // Nearly parallel or antiparallel.
      LD const k = LogUniform(r, -3, 3);
      LD const δ = LogUniform(r, -50, -1);
      V3 const noise = RandomV3(r);
      for (int j = 0; j < 3; ++j) {
        v[j] = static_cast<double>(k * (u[j] + δ * NormL(u) * noise[j]));
      }
    }
    V3 const w = RandomV3(r);
    std::string const what = StrV(u) + StrV(v) + StrV(w);
    SetCase("algebra " + what);
    Case(what);
    LD const nu = NormL(u);
    LD const nv = NormL(v);
    LD const nw = NormL(w);
    if (nu == 0 || nv == 0) {
      continue;
    }
    Vector<Length, F> const a(FromV3<Length>(u));
    Vector<Mass, F> const b(FromV3<Mass>(v));
    Bivector<Length, F> const ba(FromV3<Length>(u));
    Bivector<Mass, F> const bb(FromV3<Mass>(v));
    Bivector<double, F> const positive(FromV3<double>(w));
    double const tolerance = 4e-16;
    LD const dot = DotL(u, v);
    V3 const cross = CrossL(u, v);
    auto const scalar = [&](LD const actual, LD const expected, LD const scale,
                            std::string const& key, double const t = 1e-15) {
      Max(key, static_cast<double>(std::abs(actual - expected) / scale));
      VERIF(std::abs(actual - expected) <= t * scale, key,
            what + ": " + Str(static_cast<double>(actual)) + " vs " +
                Str(static_cast<double>(expected)));
    };
    scalar(InnerProduct(a, b) / (Metre * Kilogram), dot, nu * nv,
           "inner product");
    scalar(InnerProduct(ba, bb) / (Metre * Kilogram), dot, nu * nv,
           "inner product of bivectors");
    CheckV(ToV3(Wedge(a, b)), cross, nu * nv, "wedge", tolerance * 2);
    CheckV(ToV3(Commutator(ba, bb)), cross, nu * nv, "commutator",
           tolerance * 2);
    CheckV(ToV3(ba * b), cross, nu * nv, "left action", tolerance * 2);
    CheckV(ToV3(a * bb), cross, nu * nv, "right action", tolerance * 2);
    scalar(Wedge(a, bb).coordinates() / (Metre * Kilogram), dot, nu * nv,
           "wedge of a vector and a bivector");
    scalar(Wedge(ba, b).coordinates() / (Metre * Kilogram), dot, nu * nv,
           "wedge of a bivector and a vector");
    scalar(a.Norm() / Metre, nu, nu, "norm");
    CheckV(ToV3(Normalize(a)), (1 / nu) * u, 1, "normalize", tolerance * 2);
    CheckV(ToV3(NormalizeOrZero(ba)), (1 / nu) * u, 1, "normalize or zero",
           tolerance * 2);
    LD const angle = 2 * std::atan2(NormL(nv * u - nu * v),
                                    NormL(nv * u + nu * v));
    // Absolute.
    scalar(AngleBetween(a, b) / Radian, angle, 1, "angle between");
    scalar(AngleBetween(ba, bb) / Radian, angle, 1, "angle between bivectors");
    LD const triple = DotL(cross, w);
    if (std::abs(triple) > 1e-14 * nu * nv * nw) {
      LD const oriented = triple > 0 ? angle : -angle;
      scalar(OrientedAngleBetween(a, b, positive) / Radian, oriented, 1,
             "oriented angle");
      scalar(OrientedAngleBetween(ba, bb, positive) / Radian, oriented, 1,
             "oriented angle between bivectors");
      Count(triple > 0 ? "positive oriented angles"
                       : "negative oriented angles");
    }
    // Orthogonalization.
    {
      LD const sine = NormL(cross) / (nu * nv);
      auto const o = a.OrthogonalizationAgainst(b);
      V3 const ov = ToV3(o);
      V3 const expected = u - (dot / (nv * nv)) * v;
      CheckV(ov, expected, nu, "orthogonalization", 2e-15);
      scalar(DotL(ov, v), 0, nu * nv, "orthogonality", 2e-15);
      (void)sine;
    }
    // Projection onto a plane.
    {
      auto const plane = Plane<F>::OrthogonalTo(b);
      V3 const expected = u - (dot / (nv * nv)) * v;
      CheckV(ToV3(Projection(a, plane)), expected, nu, "projection", 4e-15);
    }
    // Spherical coordinates.
    {
      auto const s = a.coordinates().ToSpherical();
      scalar(s.radius / Metre, nu, nu, "radius");
      LD const latitude = std::atan2(u[2], std::hypot(u[0], u[1]));
      LD const longitude = std::atan2(u[1], u[0]);
      scalar(s.latitude / Radian, latitude, 1, "latitude");
      scalar(s.longitude / Radian, longitude, 1, "longitude");
      CheckV(ToV3(s.ToCartesian()), u, nu, "to Cartesian", 2e-15);
    }
    // Fused operations.
    if constexpr (FUSED) {
      double const k = LogUniform(r, -20, 20);
      Vector<Length, F> const c(FromV3<Length>(w));
      auto const fused = [&](int const sign_p, int const sign_c,
                             Vector<Length, F> const& actual,
                             std::string const& key) {
        for (int j = 0; j < 3; ++j) {
          double const expected =
              std::fma(sign_p * static_cast<double>(u[j]), k,
                       sign_c * static_cast<double>(w[j]));
          double const product =
              std::abs(static_cast<double>(u[j]) * k);
          // Without an FMA the operations are emulated.
          VERIF(std::abs(actual.coordinates()[j] / Metre - expected) <=
                    4e-16 * (product + std::abs(static_cast<double>(w[j]))),
                key, what);
        }
      };
      fused(1, 1, FusedMultiplyAdd(a, k, c), "fused multiply-add");
      fused(1, -1, FusedMultiplySubtract(a, k, c), "fused multiply-subtract");
      fused(-1, 1, FusedNegatedMultiplyAdd(a, k, c),
            "fused negated multiply-add");
      fused(-1, -1, FusedNegatedMultiplySubtract(a, k, c),
            "fused negated multiply-subtract");
      fused(1, 1, FusedMultiplyAdd(k, a, c), "fused multiply-add, left");
      fused(1, -1, FusedMultiplySubtract(k, a, c),
            "fused multiply-subtract, left");
      fused(-1, 1, FusedNegatedMultiplyAdd(k, a, c),
            "fused negated multiply-add, left");
      fused(-1, -1, FusedNegatedMultiplySubtract(k, a, c),
            "fused negated multiply-subtract, left");
    }
    // Quaternions.
    {
      Quaternion const p = RandomQuaternion(r);
      Quaternion const q = RandomQuaternion(r);
      auto const pq = p * q;
      LD const pw = p.real_part();
      LD const qw = q.real_part();
      V3 const pv = ToV3(p.imaginary_part());
      V3 const qv = ToV3(q.imaginary_part());
      scalar(pq.real_part(), pw * qw - DotL(pv, qv), 1, "quaternion product");
      CheckV(ToV3(pq.imaginary_part()), pw * qv + qw * pv + CrossL(pv, qv), 1,
             "quaternion product: imaginary part", 1e-15);
      auto const one = (pq / q) * p.Inverse();
      scalar(one.real_part(), 1, 1, "quaternion quotient", 4e-15);
      CheckV(ToV3(one.imaginary_part()), {}, 1,
             "quaternion quotient: imaginary part", 4e-15);
    }
    // Matrices.
    {
      M3 const m = {RandomV3(r), RandomV3(r), RandomV3(r)};
      M3 const p = {RandomV3(r), RandomV3(r), RandomV3(r)};
      auto const rm = FromM3<Length>(m);
      auto const rp = FromM3<Mass>(p);
      LD const nm = NormF(m);
      CheckM(ToM3(rm * rp), m * p, nm * NormF(p), "matrix product", 1e-15);
      CheckV(ToV3(rm * b.coordinates()), m * v, nm * nv, "matrix on a vector",
             1e-15);
      CheckV(ToV3(b.coordinates() * rm), T(m) * v, nm * nv,
             "vector on a matrix", 1e-15);
      scalar(rm.Determinant() / Pow<3>(Metre), Det(m), nm * nm * nm,
             "determinant of a matrix");
      scalar(rm.Trace() / Metre, m[0][0] + m[1][1] + m[2][2], nm, "trace");
      scalar(rm.FrobeniusNorm() / Metre, nm, nm, "Frobenius norm");
      CheckM(ToM3(rm.Transpose()), T(m), 1, "transpose", 0);
      M3 kronecker;
      for (int j = 0; j < 3; ++j) {
        kronecker[j] = u[j] * v;
      }
      CheckM(ToM3(KroneckerProduct(a.coordinates(), b.coordinates())),
             kronecker, nu * nv, "Kronecker product", 1e-15);
      LD const det = Det(m);
      if (std::abs(det) > 1e-6 * nm * nm * nm) {
        // The pivot should be chosen in the matrix being reduced.
        M3 reduced = m;
        M3 raw = m;
        bool bad_pivot = false;
        for (int k = 0; k < 3; ++k) {
          int best = k;
          int chosen = k;
          for (int row = k; row < 3; ++row) {
            if (std::abs(reduced[row][k]) >= std::abs(reduced[best][k])) {
              best = row;
            }
            if (std::abs(raw[row][k]) >= std::abs(raw[chosen][k])) {
              chosen = row;
            }
          }
          bad_pivot |= raw[chosen][k] == 0;
          bad_pivot |= std::abs(reduced[chosen][k]) <
                       0.01 * std::abs(reduced[best][k]);
          std::swap(raw[k], raw[chosen]);
          std::swap(reduced[k], reduced[chosen]);
          for (int row = k + 1; row < 3; ++row) {
            reduced[row] = reduced[row] -
                           (reduced[row][k] / reduced[k][k]) * reduced[k];
          }
        }
        std::string const solve =
            bad_pivot ? "solve: the pivot is chosen before elimination"
                      : "solve";
        Count(solve);
        {
          absl::shim::SetThreadFatalMode(absl::shim::FatalMode::Throw);
          std::optional<V3> x;
          try {
            x = ToV3(rm.Solve(b.coordinates()));
          } catch (...) {
          }
          absl::shim::SetThreadFatalMode(absl::shim::FatalMode::Abort);
          if (Verify(x.has_value(), bad_pivot ? solve : "solve: refused",
                     StrM(m))) {
            if (bad_pivot) {
              VERIF(NormL(m * *x - v) <= 1e-13 * (nm * NormL(*x) + nv),
                    solve, StrM(m));
            } else {
              CheckV(m * *x, v, nm * NormL(*x) + nv, "solve: residual", 1e-13);
            }
          }
        }
        R3x3Matrix<double> Q;
        R3x3Matrix<Length> R;
        rm.QRDecomposition(Q, R);
        M3 const q = ToM3(Q);
        M3 const rr = ToM3(R);
        CheckM(q * rr, m, nm, "QR: product", 1e-14);
        CheckM(q * T(q), unit, 1, "QR: orthogonality", 1e-9);
        VERIF(rr[1][0] == 0 && rr[2][0] == 0 && rr[2][1] == 0,
              "QR: R is not triangular", StrM(rr));
      }
      serialization::R3x3Matrix message;
      rm.WriteToMessage(&message);
      VERIF(R3x3Matrix<Length>::ReadFromMessage(message) == rm,
            "matrix: round trip", message.ShortDebugString());
    }
    // Symmetric forms.
    {
      M3 const f = RandomSymmetric(r);
      LD const nf = NormF(f);
      if (nf == 0) {
        continue;
      }
      SymmetricBilinearForm<Length, F, Vector> const form(FromM3<Length>(f));
      Vector1 const x(FromV3<double>(w));
      scalar(form(a, b) / (Pow<2>(Metre) * Kilogram), DotL(u, f * v),
             nf * nu * nv, "form");
      CheckV(ToV3(form * x), f * w, nf * nw, "form on a vector", 1e-15);
      CheckV(ToV3(x * form), f * w, nf * nw, "vector on a form", 1e-15);
      // Anticommutator: (tr F) 1 - F.
      LD const trace = f[0][0] + f[1][1] + f[2][2];
      M3 anti = -1 * f;
      for (int j = 0; j < 3; ++j) {
        anti[j][j] += trace;
      }
      CheckM(ToM3(form.Anticommutator().coordinates()), anti, nf,
             "anticommutator", 2e-15);
      CheckM(ToM3(form.Anticommutator().AnticommutatorInverse().coordinates()),
             f, nf, "anticommutator inverse", 4e-15);
      CheckV(ToV3(Anticommutator(form, bb)), anti * v, nf * nv,
             "anticommutator on a bivector", 2e-15);
      M3 product;
      for (int j = 0; j < 3; ++j) {
        for (int k = 0; k < 3; ++k) {
          product[j][k] = (u[j] * v[k] + u[k] * v[j]) / 2;
        }
      }
      CheckM(ToM3(SymmetricProduct(a, b).coordinates()), product, nu * nv,
             "symmetric product", 1e-15);
      serialization::SymmetricBilinearForm message;
      form.WriteToMessage(&message);
      VERIF((SymmetricBilinearForm<Length, F, Vector>::ReadFromMessage(
                 message) == form),
            "form: round trip", message.ShortDebugString());

      SetCase("diagonalize " + StrM(f));
      auto const eigen = form.Diagonalize<R2>();
      VERIF(eigen.form.IsDiagonalized(), "diagonalize: not diagonalized",
            StrM(f) + " gives " + StrM(ToM3(eigen.form.coordinates())));
      M3 const d = ToM3(eigen.form.coordinates());
      M3 const q = MatrixOf(eigen.rotation.quaternion());
      LD const q_norm = eigen.rotation.quaternion().Norm();
      scalar(q_norm, 1, 1, "diagonalize: rotation is not normalized", 1e-14);
      CheckM(q * d * T(q), f, nf, "diagonalize: reconstruction of " + StrM(f),
             2e-14);
      CheckM(ToM3(eigen.rotation(eigen.form).coordinates()), f, nf,
             "diagonalize: image", 2e-14);
    }
  }
}

// Barycentres, intervals, projective points.
void Points() {
  auto r = MakeRng("points");
  using F = R1;
  int const n = N(20'000);
  for (int i = 0; i < n; ++i) {
    int const size = Int(r, 1, 6);
    BarycentreCalculator<Position<F>, Mass> calculator;
    BarycentreCalculator<Velocity<F>, Mass> velocities;
    V3 sum{};
    LD weights = 0;
    LD scale = 0;
    std::string what;
    std::vector<V3> points;
    for (int j = 0; j < size; ++j) {
      V3 const p = RandomV3(r, Chance(r, 0.3));
      double w = std::abs(LogUniform(r, -20, 20));
      if (Chance(r, 0.2)) {
        w = 1;
      }
      calculator.Add(F::origin + Displacement<F>(FromV3<Length>(p)),
                     w * Kilogram);
      velocities.Add(Velocity<F>(FromV3<Speed>(p)), w * Kilogram);
      sum = sum + w * p;
      weights += w;
      scale += w * NormL(p);
      points.push_back(p);
      what += StrV(p) + "*" + Str(w) + " ";
    }
    SetCase("barycentre " + what);
    Case("barycentre " + what);
    CheckV(ToV3(calculator.Get() - F::origin), (1 / weights) * sum,
           scale / weights, "barycentre", 4e-15);
    CheckV(ToV3(velocities.Get()), (1 / weights) * sum,
           scale / weights, "barycentre of vectors", 4e-15);
    VERIF(std::abs(calculator.weight() / Kilogram - weights) <=
              4e-15 * weights,
          "weight", what);

    // Intervals.
    Interval<Length> interval;
    VERIF(interval.empty() && interval.measure() == 0 * Metre,
          "a default interval is not empty", "");
    double lo = std::numeric_limits<double>::infinity();
    double hi = -lo;
    for (auto const& p : points) {
      double const x = static_cast<double>(p[0]);
      interval.Include(x * Metre);
      lo = std::min(lo, x);
      hi = std::max(hi, x);
    }
    double const a = Int(r, -2, 2);
    double const b = Chance(r, 0.5) ? Int(r, -2, 2) : Uniform(r, -1.0, 1.0);
    Interval<Length> const other{.min = a * Metre, .max = b * Metre};
    auto const intersection = Intersection(interval, other);
    double const i_lo = std::max(lo, a);
    double const i_hi = std::min(hi, b);
    VERIF(interval.min == lo * Metre && interval.max == hi * Metre &&
              interval.measure() == std::max(0.0, hi - lo) * Metre &&
              interval.empty() == (hi <= lo),
          "interval", what);
    VERIF(other.empty() == (b <= a) &&
              other.measure() == std::max(0.0, b - a) * Metre,
          "interval measure", Str(a) + " " + Str(b));
    VERIF(intersection.measure() == std::max(0.0, i_hi - i_lo) * Metre,
          "intersection", what + Str(a) + " " + Str(b));
    if (lo <= hi) {
      double const m = interval.midpoint() / Metre;
      VERIF(m >= lo && m <= hi &&
                std::abs(m - (LD(lo) + LD(hi)) / 2) <=
                    2e-16 * (std::abs(lo) + std::abs(hi)),
            "midpoint", Str(lo) + " " + Str(hi) + " " + Str(m));
    }
    if (a > b) {
      VERIF(std::isnan(other.midpoint() / Metre), "midpoint of an empty one",
            Str(a) + " " + Str(b));
    }

    // Projective points.
    auto const coordinate = [&]() {
      return Chance(r, 0.2) ? (Chance(r, 0.5) ? 0.0 : -0.0)
                            : LogUniform(r, -10, 10);
    };
    double x = coordinate();
    double y = coordinate();
    double z = coordinate();
    if (x == 0 && y == 0 && z == 0) {
      z = 1;
    }
    std::string const xyz = Str(x) + " " + Str(y) + " " + Str(z);
    Case("rp2 " + xyz);
    RP2Point<Length, F> const p(x * Metre, y * Metre, z);
    VERIF(p.is_at_infinity() == (z == 0), "at infinity", xyz);
    if (z != 0) {
      VERIF(std::abs(p.x() / Metre - x / z) <= 4e-16 * std::abs(x / z) &&
                std::abs(p.y() / Metre - y / z) <= 4e-16 * std::abs(y / z),
            "Euclidean coordinates", xyz);
      if (x != 0 && y != 0) {
        VERIF(std::signbit(p.x() / Metre) == (std::signbit(x) != std::signbit(z)) &&
                  std::signbit(p.y() / Metre) ==
                      (std::signbit(y) != std::signbit(z)),
              "quadrant", xyz);
      }
    } else {
      VERIF(x == 0 || std::isinf(p.x() / Metre), "infinite x", xyz);
      VERIF(y == 0 || std::isinf(p.y() / Metre), "infinite y", xyz);
    }
    double const k = std::exp2(Int(r, -20, 20)) * (Chance(r, 0.5) ? 1 : -1);
    RP2Point<Length, F> const q(k * x * Metre, k * y * Metre, k * z);
    VERIF(p == q && !(p != q), "homogeneous coordinates", xyz + " " + Str(k));
    RP2Point<Length, F> const other_p((x + 1) * Metre, y * Metre, z + 0.5);
    LD const det = LD(x) * (LD(z) + 0.5L) - LD(x + 1) * LD(z);
    if (std::abs(det) > 1e-3 * (std::abs(x) + 1) * (std::abs(z) + 1)) {
      VERIF(p != other_p, "distinct points are equal", xyz);
    }
  }
}

// Perspective.

// The distance from `c` to the segment [k, p].
LD DistanceToSegment(V3 const& c, V3 const& k, V3 const& p) {
  V3 const d = p - k;
  LD const n2 = DotL(d, d);
  LD t = n2 == 0 ? 0 : DotL(c - k, d) / n2;
  t = std::min(LD(1), std::max(LD(0), t));
  return NormL(c - (k + t * d));
}

void Perspectives() {
  auto r = MakeRng("perspective");
  using World = R1;
  using Camera = R2;
  int const n = N(3000);
  auto const position = [](V3 const& v) {
    return World::origin + Displacement<World>(FromV3<Length>(v));
  };
  auto const rounded = [](V3 const& v) {
    return V3{static_cast<double>(v[0]), static_cast<double>(v[1]),
              static_cast<double>(v[2])};
  };
  for (int i = 0; i < n; ++i) {
    double const unit_length = std::exp2(Int(r, 0, 40));
    auto const random = [&](double const size) {
      return rounded(LD(size * unit_length) * RandomV3(r));
    };
    V3 const camera = Chance(r, 0.2) ? V3{0, 0, 0} : random(10);
    auto const rotation = RandomRotation<World, Camera>(r);
    double const scale = Chance(r, 0.5) ? 1 : std::exp2(Int(r, -5, 5));
    double const focal = Uniform(r, 0.1, 3) * unit_length;
    M3 const m = LD(scale) * rotation.matrix;
    auto const linear =
        Homothecy<double, Camera, Camera>(scale).Forget<ConformalMap>() *
        rotation.map.Forget<ConformalMap>();
    Similarity<World, Camera> const to_camera(
        position(camera), Camera::origin, linear);
    Perspective<World, Camera> const perspective =
        Chance(r, 0.5)
            ? Perspective<World, Camera>(to_camera, focal * Metre)
            : Perspective<World, Camera>(to_camera.Inverse(), focal * Metre);
    std::string const what = "camera " + StrV(camera) + " focal " + Str(focal) +
                             " scale " + Str(scale) + " " +
                             StrM(rotation.matrix);
    SetCase("perspective " + what);
    CheckV(ToV3(perspective.camera() - World::origin), camera,
           10 * unit_length + NormL(camera), "camera");

    // The projection.
    V3 const p = random(20);
    V3 const kp = m * (p - camera);
    if (std::abs(kp[2]) > 1e-6 * NormL(kp)) {
      auto const image = perspective(position(p));
      LD const x = kp[0] / kp[2] * focal;
      LD const y = kp[1] / kp[2] * focal;
      LD const amplification = NormL(kp) / std::abs(kp[2]) *
                               (NormL(camera) * scale + NormL(kp)) / NormL(kp);
      LD const size = focal * NormL(kp) / std::abs(kp[2]);
      VERIF(std::abs(image.x() / Metre - x) <= 1e-14 * amplification * size &&
                std::abs(image.y() / Metre - y) <= 1e-14 * amplification * size,
            "projection", what + " of " + StrV(p));
      Count("projections");
    }

    V3 const a = random(20);
    V3 const b = Chance(r, 0.1) ? rounded(a + random(0.01)) : random(20);
    Segment<World> const segment{position(a), position(b)};
    LD const ab = NormL(b - a);
    if (ab == 0) {
      continue;
    }
    // The focal plane.  `focal` is compared in the frame of the world: only for
    // isometries does this describe the plane without ambiguity.
    if (scale == 1) {
      V3 const z = rotation.matrix[2];
      auto const behind = perspective.SegmentBehindFocalPlane(segment);
      LD const za = DotL(a - camera, z);
      LD const zb = DotL(b - camera, z);
      LD const margin = 1e-12 * (NormL(a) + NormL(b) + NormL(camera));
      if (std::abs(za - focal) > margin && std::abs(zb - focal) > margin) {
        bool const sees_a = za > focal;
        bool const sees_b = zb > focal;
        if (Verify(behind.has_value() == (sees_a || sees_b),
                  "segment behind the focal plane", what) &&
            behind.has_value()) {
          V3 const s = ToV3(behind->first - World::origin);
          V3 const t = ToV3(behind->second - World::origin);
          V3 const cut = (1 / (zb - za)) *
                         ((zb - LD(focal)) * a + (LD(focal) - za) * b);
          LD const size = (NormL(a) + NormL(b) + NormL(camera)) *
                          (1 + ab / std::abs(zb - za));
          CheckV(s, sees_a ? a : cut, size,
                 "segment behind the focal plane: first", 1e-13);
          CheckV(t, sees_b ? b : cut, size,
                 "segment behind the focal plane: second", 1e-13);
          Count(sees_a && sees_b ? "whole segments behind the focal plane"
                                 : "segments cut by the focal plane");
        } else {
          Count("segments in front of the focal plane");
        }
      }
    }

    // Spheres.
    std::vector<Sphere<World>> spheres;
    std::vector<std::pair<V3, LD>> balls;
    int const size = Int(r, 1, 5);
    for (int j = 0; j < size; ++j) {
      V3 centre = random(15);
      double radius = Uniform(r, 0.1, 8) * unit_length;
      if (Chance(r, 0.6)) {
        // On the way to a point of the segment.
        LD const t = Uniform(r, 0, 1);
        LD const s = Uniform(r, 0.2, 1.2);
        V3 const target = (1 - t) * a + t * b;
        centre = rounded(camera + s * (target - camera));
        radius = Uniform(r, 0.01, 0.3) *
                 static_cast<double>(NormL(target - camera));
        if (radius == 0) {
          radius = unit_length;
        }
      }
      if (Chance(r, 0.3)) {
        // Beside the camera.
        radius = std::min(
            radius, static_cast<double>(0.99 * NormL(centre - camera)));
        if (radius == 0) {
          radius = unit_length;
        }
      }
      spheres.emplace_back(position(centre), radius * Metre);
      balls.emplace_back(centre, radius);
    }
    Case("perspective " + what + StrV(a) + StrV(b) +
         StrV(balls.front().first) + Str(static_cast<double>(
             balls.front().second)));
    LD const extent = NormL(a) + NormL(b) + NormL(camera);
    auto const hidden = [&](V3 const& q, std::pair<V3, LD> const& ball,
                            bool& certain) {
      LD const d = DistanceToSegment(ball.first, camera, q);
      certain = std::abs(d - ball.second) > 1e-6 * (ball.second + extent);
      return d < ball.second;
    };
    for (int j = 0; j < size; ++j) {
      bool certain;
      V3 const q = random(20);
      bool const expected = hidden(q, balls[j], certain);
      if (certain && NormL(balls[j].first - camera) > balls[j].second) {
        VERIF(perspective.IsHiddenBySphere(position(q), spheres[j]) == expected,
              "is hidden by sphere",
              what + " point " + StrV(q) + " centre " +
                  StrV(balls[j].first) + " radius " +
                  Str(static_cast<double>(balls[j].second)));
        Count(expected ? "points hidden" : "points visible");
      }
      LD const kc = NormL(balls[j].first - camera);
      LD const sin2 = std::min(
          LD(1), balls[j].second * balls[j].second / (kc * kc));
      VERIF(std::abs(perspective.SphereSin²HalfAngle(spheres[j]) - sin2) <=
                1e-13 * (1 + extent / kc),
            "half angle", what);
    }

    // The segment as seen from the camera must not be degenerate.
    LD const sine = NormL(CrossL(a - camera, b - camera)) /
                    (NormL(a - camera) * NormL(b - camera));
    if (!(sine > 1e-4)) {
      Count("degenerate segments");
      continue;
    }
    int visible_segments = 0;
    std::string const orthogonal_key =
        "visible segments: the first end is seen at right angles to the centre";
    auto const check = [&](auto const& segments, int const begin, int const end,
                           std::string const& name) {
      // The code divides by KA·KH, which is KA·KC.
      std::string key = name;
      for (int j = begin; j < end; ++j) {
        V3 const ka = a - camera;
        V3 const kc = balls[j].first - camera;
        if (std::abs(DotL(ka, kc)) <= 1e-8 * NormL(ka) * NormL(kc)) {
          key = orthogonal_key;
        }
      }
      std::vector<std::pair<LD, LD>> intervals;
      for (auto const& s : segments) {
        V3 const s1 = ToV3(s.first - World::origin);
        V3 const s2 = ToV3(s.second - World::origin);
        LD const t1 = DotL(s1 - a, b - a) / (ab * ab);
        LD const t2 = DotL(s2 - a, b - a) / (ab * ab);
        CheckV(s1, a + t1 * (b - a), extent, key + ": not on the segment",
               1e-9);
        CheckV(s2, a + t2 * (b - a), extent, key + ": not on the segment",
               1e-9);
        VERIF(t1 >= -1e-9 && t1 <= t2 + 1e-9 && t2 <= 1 + 1e-9,
              key + ": not a part of the segment",
              what + Str(static_cast<double>(t1)) + " " +
                  Str(static_cast<double>(t2)));
        intervals.emplace_back(t1, t2);
        ++visible_segments;
      }
      int const samples = 50;
      for (int k = 0; k <= samples; ++k) {
        LD const t = LD(k) / samples;
        V3 const q = a + t * (b - a);
        bool is_hidden = false;
        bool all_certain = true;
        for (int j = begin; j < end; ++j) {
          bool certain;
          bool const h = hidden(q, balls[j], certain);
          if (h && certain) {
            is_hidden = true;
            all_certain = true;
            break;
          }
          all_certain &= certain;
        }
        if (!all_certain) {
          Count("uncertain points");
          continue;
        }
        bool in = false;
        bool on_the_edge = false;
        for (auto const& [t1, t2] : intervals) {
          in |= t1 - 1e-9 <= t && t <= t2 + 1e-9;
          on_the_edge |= std::abs(t - t1) < 1e-6 && t1 > 1e-9;
          on_the_edge |= std::abs(t - t2) < 1e-6 && t2 < 1 - 1e-9;
        }
        if (on_the_edge) {
          continue;
        }
        VERIF(in == !is_hidden,
              key == orthogonal_key ? key :
              key + (is_hidden ? ": a hidden point is shown"
                               : ": a visible point is hidden"),
                what + " segment " + StrV(a) + StrV(b) + " centre " +
                  StrV(balls[begin].first) + " radius " +
                  Str(static_cast<double>(balls[begin].second)) + " at " +
                  Str(static_cast<double>(t)) + " sine " +
                  Str(static_cast<double>(sine)));
        Count(is_hidden ? "points of segments hidden"
                        : "points of segments visible");
      }
    };
    for (int j = 0; j < size; ++j) {
      auto const segments = perspective.VisibleSegments(segment, spheres[j]);
      VERIF(segments.size() <= 2, "too many segments", what);
      Count("visible segments for a sphere: " +
            std::to_string(segments.size()));
      check(segments, j, j + 1, "one sphere");
    }
    auto const segments = perspective.VisibleSegments(segment, spheres);
    VERIF(segments.size() <= spheres.size() + 1, "too many segments", what);
    check(segments, 0, size, "several spheres");
  }
}

void Body() {
  if (Selected("maps")) {
    Maps();
  }
  if (Selected("algebra")) {
    Algebra();
  }
  if (Selected("points")) {
    Points();
  }
  if (Selected("perspective")) {
    Perspectives();
  }
}

}  // namespace verif

VERIF_MAIN(verif::Body)
