// Random systems of celestial bodies, with an independent model of their
// forces and motion.
#pragma once

#include <array>
#include <cmath>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "base/not_null.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/massive_body.hpp"
#include "physics/oblate_body.hpp"
#include "physics/rotating_body.hpp"
#include "quantities/named_quantities.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/physics.pb.h"
#include "verif.hpp"

namespace solar {

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_massive_body;
using namespace principia::physics::_oblate_body;
using namespace principia::physics::_rotating_body;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace verif;

using Real = long double;
using Vec = std::array<Real, 3>;

inline Vec operator+(Vec const& a, Vec const& b) {
  return {a[0] + b[0], a[1] + b[1], a[2] + b[2]};
}
inline Vec operator-(Vec const& a, Vec const& b) {
  return {a[0] - b[0], a[1] - b[1], a[2] - b[2]};
}
inline Vec operator*(Real const k, Vec const& a) {
  return {k * a[0], k * a[1], k * a[2]};
}
inline Vec& operator+=(Vec& a, Vec const& b) {
  return a = a + b;
}
inline Vec& operator-=(Vec& a, Vec const& b) {
  return a = a - b;
}
inline Real Dot(Vec const& a, Vec const& b) {
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline Vec Cross(Vec const& a, Vec const& b) {
  return {a[1] * b[2] - a[2] * b[1],
          a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0]};
}
inline Real Norm(Vec const& a) {
  return std::sqrt(Dot(a, a));
}

struct BodySpec {
  std::string name;
  Real μ;
  double radius;
  bool rotating = false;
  bool oblate = false;
  // The normalized coefficients.
  struct Harmonic {
    int n;
    int m;
    double c;
    double s;
  };
  std::vector<Harmonic> harmonics;
  double right_ascension = 0;
  double declination = 0;
  double reference_angle = 0;
  double angular_frequency = 1e-4;
  double reference_time = 0;
};

inline Vec Polar(BodySpec const& b) {
  Real const α = b.right_ascension;
  Real const δ = b.declination;
  return {std::cos(δ) * std::cos(α), std::cos(δ) * std::sin(α), std::sin(δ)};
}

// The axes of the surface frame at the given time, in seconds.
inline std::array<Vec, 3> SurfaceAxes(BodySpec const& b, Real const t) {
  Real const α = b.right_ascension;
  Vec const z = Polar(b);
  Vec const q = {-std::sin(α), std::cos(α), 0};
  Vec const q2 = Cross(z, q);
  Real const w = b.reference_angle +
                 static_cast<Real>(b.angular_frequency) *
                     (t - b.reference_time);
  Vec const x = std::cos(w) * q + std::sin(w) * q2;
  return {x, Cross(z, x), z};
}

inline Real Normalization(int const n, int const m) {
  Real f = (m == 0 ? 1 : 2) * (2 * n + 1);
  for (int k = n - m + 1; k <= n + m; ++k) {
    f /= k;
  }
  return std::sqrt(f);
}

// The acceleration and the potential exerted at r by the harmonics of degree
// at least 2, per unit of μ (Cunningham's recurrences).
inline void Harmonics(BodySpec const& b, Real const t, Vec const& r,
                      Vec& acceleration, Real& potential) {
  acceleration = {0, 0, 0};
  potential = 0;
  int degree = 0;
  for (auto const& h : b.harmonics) {
    degree = std::max(degree, h.n);
  }
  if (degree == 0) {
    return;
  }
  auto const axes = SurfaceAxes(b, t);
  Real const R = b.radius;
  Real const x = Dot(r, axes[0]);
  Real const y = Dot(r, axes[1]);
  Real const z = Dot(r, axes[2]);
  Real const r2 = Dot(r, r);
  Real const ρ = R * R / r2;
  Real const x0 = R * x / r2;
  Real const y0 = R * y / r2;
  Real const z0 = R * z / r2;
  int const size = degree + 3;
  std::vector<std::vector<Real>> V(size, std::vector<Real>(size, 0));
  std::vector<std::vector<Real>> W(size, std::vector<Real>(size, 0));
  V[0][0] = R / std::sqrt(r2);
  for (int m = 0; m < size - 1; ++m) {
    if (m > 0) {
      V[m][m] = (2 * m - 1) * (x0 * V[m - 1][m - 1] - y0 * W[m - 1][m - 1]);
      W[m][m] = (2 * m - 1) * (x0 * W[m - 1][m - 1] + y0 * V[m - 1][m - 1]);
    }
    for (int n = m + 1; n < size; ++n) {
      V[n][m] = (2 * n - 1) * z0 * V[n - 1][m];
      W[n][m] = (2 * n - 1) * z0 * W[n - 1][m];
      if (n >= m + 2) {
        V[n][m] -= (n + m - 1) * ρ * V[n - 2][m];
        W[n][m] -= (n + m - 1) * ρ * W[n - 2][m];
      }
      V[n][m] /= n - m;
      W[n][m] /= n - m;
    }
  }
  Vec a = {0, 0, 0};
  for (auto const& h : b.harmonics) {
    int const n = h.n;
    int const m = h.m;
    Real const C = h.c * Normalization(n, m);
    Real const S = h.s * Normalization(n, m);
    potential -= C * V[n][m] + S * W[n][m];
    if (m == 0) {
      a[0] -= C * V[n + 1][1];
      a[1] -= C * W[n + 1][1];
    } else {
      Real const k = (n - m + 2) * (n - m + 1);
      a[0] += (-C * V[n + 1][m + 1] - S * W[n + 1][m + 1] +
               k * (C * V[n + 1][m - 1] + S * W[n + 1][m - 1])) / 2;
      a[1] += (-C * W[n + 1][m + 1] + S * V[n + 1][m + 1] +
               k * (-C * W[n + 1][m - 1] + S * V[n + 1][m - 1])) / 2;
    }
    a[2] += (n - m + 1) * (-C * V[n + 1][m] - S * W[n + 1][m]);
  }
  potential /= R;
  for (int i = 0; i < 3; ++i) {
    a[i] /= R * R;
  }
  acceleration = a[0] * axes[0] + a[1] * axes[1] + a[2] * axes[2];
}

struct SystemSpec {
  std::vector<BodySpec> bodies;
  std::vector<Vec> q;
  std::vector<Vec> v;
  // The shortest period, and the corresponding semimajor axis.
  double period;
  double distance;
  // The time of the initial state.
  double t0;

  std::string Describe() const {
    std::string s = Str("n=", bodies.size(), " period=", period, " distance=",
                        distance, " t0=", t0, " μ=");
    for (auto const& b : bodies) {
      s += Str(static_cast<double>(b.μ), b.oblate ? "(oblate)" : "", " ");
    }
    return s;
  }
};

// The acceleration exerted at `p` by the given body located at `q`.
inline Vec AccelerationBy(BodySpec const& b, Real const t, Vec const& q,
                          Vec const& p) {
  Vec const r = p - q;
  Real const r2 = Dot(r, r);
  Real const norm = std::sqrt(r2);
  Vec a = (-b.μ / (r2 * norm)) * r;
  if (b.oblate) {
    Vec h;
    Real u;
    Harmonics(b, t, r, h, u);
    a += b.μ * h;
  }
  return a;
}

inline Real PotentialBy(BodySpec const& b, Real const t, Vec const& q,
                        Vec const& p) {
  Vec const r = p - q;
  Real u = -b.μ / Norm(r);
  if (b.oblate) {
    Vec h;
    Real uh;
    Harmonics(b, t, r, h, uh);
    u += b.μ * uh;
  }
  return u;
}

// The accelerations of the bodies, with the reactions.
inline std::vector<Vec> Accelerations(SystemSpec const& s, Real const t,
                                      std::vector<Vec> const& q) {
  std::vector<Vec> a(q.size(), Vec{0, 0, 0});
  for (std::size_t i = 0; i < q.size(); ++i) {
    auto const& b = s.bodies[i];
    for (std::size_t j = 0; j < q.size(); ++j) {
      if (i != j) {
        Vec const f = AccelerationBy(b, t, q[i], q[j]);
        // Each pair of point masses is seen twice.
        a[j] += f;
        if (b.oblate) {
          Vec h;
          Real u;
          Harmonics(b, t, q[j] - q[i], h, u);
          a[i] -= s.bodies[j].μ * h;
        }
      }
    }
  }
  return a;
}

// Gragg–Bulirsch–Stoer with a fixed number of columns, for q″ = f(t, q, q′).
// The derivative is only used if `f` uses it.
template<typename F>
void ExtrapolationStep(F const& f, Real const t, Real const h,
                       std::vector<Vec>& q, std::vector<Vec>& v) {
  constexpr int columns = 8;
  std::size_t const n = q.size();
  std::vector<std::vector<Vec>> tq(columns);
  std::vector<std::vector<Vec>> tv(columns);
  for (int k = 0; k < columns; ++k) {
    int const m = 2 * (k + 1);
    Real const δ = h / m;
    auto q0 = q;
    auto v0 = v;
    auto q1 = q;
    auto v1 = v;
    {
      auto const a = f(t, q, v);
      for (std::size_t i = 0; i < n; ++i) {
        q1[i] += δ * v[i];
        v1[i] += δ * a[i];
      }
    }
    for (int j = 1; j < m; ++j) {
      auto const a = f(t + j * δ, q1, v1);
      for (std::size_t i = 0; i < n; ++i) {
        Vec const q2 = q0[i] + (2 * δ) * v1[i];
        Vec const v2 = v0[i] + (2 * δ) * a[i];
        q0[i] = q1[i];
        v0[i] = v1[i];
        q1[i] = q2;
        v1[i] = v2;
      }
    }
    auto const a = f(t + h, q1, v1);
    tq[k].resize(n);
    tv[k].resize(n);
    for (std::size_t i = 0; i < n; ++i) {
      tq[k][i] = 0.5L * (q0[i] + q1[i] + δ * v1[i]);
      tv[k][i] = 0.5L * (v0[i] + v1[i] + δ * a[i]);
    }
    // Neville.
    for (int l = k - 1; l >= 0; --l) {
      Real const ratio = static_cast<Real>(k + 1) / (l + 1);
      Real const factor = 1 / (ratio * ratio - 1);
      for (std::size_t i = 0; i < n; ++i) {
        tq[l][i] = tq[l + 1][i] + factor * (tq[l + 1][i] - tq[l][i]);
        tv[l][i] = tv[l + 1][i] + factor * (tv[l + 1][i] - tv[l][i]);
      }
    }
  }
  q = tq[0];
  v = tv[0];
}

// Advances the bodies by a time.
inline void Advance(SystemSpec const& s, Real& t, Real const t_final,
                    std::vector<Vec>& q, std::vector<Vec>& v,
                    Real const fraction = 1.0L / 40) {
  auto const f = [&s](Real const t, std::vector<Vec> const& q,
                      std::vector<Vec> const&) {
    return Accelerations(s, t, q);
  };
  Real const interval = t_final - t;
  int const steps = std::max<int>(
      1, std::ceil(std::abs(interval) / (s.period * fraction)));
  Real const start = t;
  for (int i = 0; i < steps; ++i) {
    ExtrapolationStep(f, t, interval / steps, q, v);
    t = start + interval * (i + 1) / steps;
  }
  t = t_final;
}

// The state of a Kepler orbit.
inline void Kepler(Real const μ, Real const a, Real const e, Real const i,
                   Real const Ω, Real const ω, Real const M, Vec& q, Vec& v) {
  Real E = M;
  for (int k = 0; k < 100; ++k) {
    E -= (E - e * std::sin(E) - M) / (1 - e * std::cos(E));
  }
  Real const n = std::sqrt(μ / (a * a * a));
  Real const Ed = n / (1 - e * std::cos(E));
  Real const β = std::sqrt(1 - e * e);
  Vec const p = {std::cos(Ω) * std::cos(ω) -
                     std::sin(Ω) * std::sin(ω) * std::cos(i),
                 std::sin(Ω) * std::cos(ω) +
                     std::cos(Ω) * std::sin(ω) * std::cos(i),
                 std::sin(ω) * std::sin(i)};
  Vec const w = {std::sin(Ω) * std::sin(i), -std::cos(Ω) * std::sin(i),
                 std::cos(i)};
  Vec const u = Cross(w, p);
  q = (a * (std::cos(E) - e)) * p + (a * β * std::sin(E)) * u;
  v = (-a * std::sin(E) * Ed) * p + (a * β * std::cos(E) * Ed) * u;
}

struct SystemOptions {
  int min_bodies = 1;
  int max_bodies = 6;
  double oblate = 0.3;
  // Harmonics of a degree higher than 2, or not zonal.
  bool general_harmonics = true;
  int max_degree = 6;
  double max_eccentricity = 0.2;
  // The size of the central body relative to the smallest orbit.
  double max_radius = 0.1;
};

inline void RandomRotation(Rng& r, BodySpec& b, double const period) {
  b.rotating = true;
  b.right_ascension = Uniform(r, -M_PI, M_PI);
  b.declination = Uniform(r, -M_PI / 2, M_PI / 2);
  b.reference_angle = Uniform(r, -M_PI, M_PI);
  b.angular_frequency =
      (Chance(r, 0.2) ? -1 : 1) * 2 * M_PI / (period * Uniform(r, 0.05, 2));
  b.reference_time = Uniform(r, -1, 1) * period;
}

inline void RandomHarmonics(Rng& r, BodySpec& b, SystemOptions const& o) {
  b.oblate = true;
  int const degree = o.general_harmonics && Chance(r, 0.6)
                         ? static_cast<int>(Int(r, 3, o.max_degree))
                         : 2;
  bool const zonal = !o.general_harmonics || Chance(r, 0.3);
  for (int n = 2; n <= degree; ++n) {
    for (int m = 0; m <= (zonal ? 0 : n); ++m) {
      if (n == 2 && m == 1) {
        // Principal axes.
        continue;
      }
      double const k = std::exp(Uniform(r, std::log(1e-6), std::log(2e-2)));
      BodySpec::Harmonic h{n, m, Uniform(r, -1, 1) * k, Uniform(r, -1, 1) * k};
      if (m == 0) {
        h.s = 0;
        if (n == 2) {
          h.c = -std::abs(h.c);
        }
      }
      b.harmonics.push_back(h);
    }
  }
}

inline SystemSpec RandomSystem(Rng& r, double const period,
                               SystemOptions const& o) {
  SystemSpec s;
  s.period = period;
  s.distance = std::exp(Uniform(r, std::log(1e6), std::log(1e12)));
  s.t0 = Chance(r, 0.3) ? 0 : Uniform(r, -100, 100) * period;
  int const n = static_cast<int>(Int(r, o.min_bodies, o.max_bodies));
  double const ω = 2 * M_PI / period;
  double const μ0 = ω * ω * s.distance * s.distance * s.distance;
  auto const add = [&](double const μ, Vec const& q, Vec const& v,
                       double const radius) {
    BodySpec b;
    b.name = Str("body", s.bodies.size());
    b.μ = μ;
    b.radius = radius;
    if (Chance(r, 0.5)) {
      RandomRotation(r, b, period);
      if (Chance(r, 2 * o.oblate)) {
        RandomHarmonics(r, b, o);
      }
    }
    s.bodies.push_back(b);
    s.q.push_back(q);
    s.v.push_back(v);
  };
  Vec const drift = {Uniform(r, -1, 1) * s.distance * ω,
                     Uniform(r, -1, 1) * s.distance * ω,
                     Uniform(r, -1, 1) * s.distance * ω};
  Vec const offset = {Uniform(r, -10, 10) * s.distance,
                      Uniform(r, -10, 10) * s.distance,
                      Uniform(r, -10, 10) * s.distance};
  add(μ0, offset, drift,
      s.distance * std::exp(Uniform(r, std::log(1e-3),
                                    std::log(o.max_radius))));
  double a = s.distance;
  while (static_cast<int>(s.bodies.size()) < n) {
    double const μ = μ0 * std::exp(Uniform(r, std::log(1e-7), std::log(1e-3)));
    Vec q;
    Vec v;
    Kepler(μ0 + μ, a, Uniform(r, 0, o.max_eccentricity), Uniform(r, 0, 0.4),
           Uniform(r, 0, 6.28), Uniform(r, 0, 6.28), Uniform(r, 0, 6.28), q,
           v);
    add(μ, q + offset, v + drift, a * std::exp(Uniform(r, std::log(1e-5),
                                                       std::log(1e-3))));
    a *= Uniform(r, 1.9, 3);
  }
  // In any order.
  for (std::size_t i = s.bodies.size() - 1; i > 0; --i) {
    std::size_t const j = Int(r, 0, i);
    std::swap(s.bodies[i], s.bodies[j]);
    std::swap(s.q[i], s.q[j]);
    std::swap(s.v[i], s.v[j]);
  }
  // What the code under test will see.
  for (auto& q : s.q) {
    for (auto& c : q) {
      c = static_cast<double>(c);
    }
  }
  for (auto& v : s.v) {
    for (auto& c : v) {
      c = static_cast<double>(c);
    }
  }
  return s;
}

// Conversions.

template<typename Frame>
Vec ToVec(Position<Frame> const& q) {
  auto const c = (q - Frame::origin).coordinates();
  return {c.x / Metre, c.y / Metre, c.z / Metre};
}

template<typename Frame>
Vec ToVec(Displacement<Frame> const& q) {
  auto const c = q.coordinates();
  return {c.x / Metre, c.y / Metre, c.z / Metre};
}

template<typename Frame>
Vec ToVec(Velocity<Frame> const& v) {
  auto const c = v.coordinates();
  return {c.x / (Metre / Second), c.y / (Metre / Second),
          c.z / (Metre / Second)};
}

template<typename Frame>
Position<Frame> ToPosition(Vec const& q) {
  return Frame::origin +
         Displacement<Frame>({static_cast<double>(q[0]) * Metre,
                              static_cast<double>(q[1]) * Metre,
                              static_cast<double>(q[2]) * Metre});
}

template<typename Frame>
Velocity<Frame> ToVelocity(Vec const& v) {
  return Velocity<Frame>({static_cast<double>(v[0]) * (Metre / Second),
                          static_cast<double>(v[1]) * (Metre / Second),
                          static_cast<double>(v[2]) * (Metre / Second)});
}

template<typename Frame>
DegreesOfFreedom<Frame> ToDof(Vec const& q, Vec const& v) {
  return {ToPosition<Frame>(q), ToVelocity<Frame>(v)};
}

inline Real Seconds(Instant const& t) {
  return (t - Instant()) / Second;
}

inline Instant AtSeconds(double const t) {
  return Instant() + t * Second;
}

template<typename Frame>
not_null<std::unique_ptr<MassiveBody const>> MakeBody(BodySpec const& b) {
  namespace serialization = principia::serialization;
  MassiveBody::Parameters const massive(
      b.name,
      static_cast<double>(b.μ) * (Metre * Metre * Metre / (Second * Second)));
  if (!b.rotating) {
    return make_not_null_unique<MassiveBody>(massive);
  }
  typename RotatingBody<Frame>::Parameters const rotating(
      /*mean_radius=*/b.radius * Metre,
      b.reference_angle * Radian,
      AtSeconds(b.reference_time),
      b.angular_frequency * (Radian / Second),
      b.right_ascension * Radian,
      b.declination * Radian);
  if (!b.oblate) {
    return make_not_null_unique<RotatingBody<Frame>>(massive, rotating);
  }
  serialization::OblateBody::Geopotential geopotential;
  std::map<int, serialization::OblateBody::Geopotential::GeopotentialRow*> rows;
  for (auto const& h : b.harmonics) {
    auto& row = rows[h.n];
    if (row == nullptr) {
      row = geopotential.add_row();
      row->set_degree(h.n);
    }
    auto* const column = row->add_column();
    column->set_order(h.m);
    column->set_cos(h.c);
    column->set_sin(h.s);
  }
  return make_not_null_unique<OblateBody<Frame>>(
      massive, rotating,
      OblateBody<Frame>::Parameters::ReadFromMessage(geopotential,
                                                     b.radius * Metre));
}

template<typename Frame>
std::vector<not_null<std::unique_ptr<MassiveBody const>>> MakeBodies(
    SystemSpec const& s) {
  std::vector<not_null<std::unique_ptr<MassiveBody const>>> bodies;
  for (auto const& b : s.bodies) {
    bodies.push_back(MakeBody<Frame>(b));
  }
  return bodies;
}

template<typename Frame>
std::vector<DegreesOfFreedom<Frame>> InitialState(SystemSpec const& s) {
  std::vector<DegreesOfFreedom<Frame>> state;
  for (std::size_t i = 0; i < s.q.size(); ++i) {
    state.push_back(ToDof<Frame>(s.q[i], s.v[i]));
  }
  return state;
}

}  // namespace solar
