// C15: continuous trajectories.
#include <array>
#include <atomic>
#include <cmath>
#include <memory>
#include <optional>
#include <thread>

#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "physics/continuous_trajectory.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/physics.pb.h"
#include "verif.hpp"

using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_continuous_trajectory;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace verif;
namespace serialization = principia::serialization;

namespace {

using World = Frame<serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    serialization::Frame::TEST>;
using Trajectory = ContinuousTrajectory<World>;
using Dof = DegreesOfFreedom<World>;
using State = serialization::ContinuousTrajectory::Checkpoint;
using Vec = std::array<double, 3>;
using Quad = __float128;
Instant const t0;

struct Pt {
  Instant t;
  Vec q;
  Vec v;
};

Dof DofOf(Pt const& p) {
  return {World::origin +
              Displacement<World>(
                  {p.q[0] * Metre, p.q[1] * Metre, p.q[2] * Metre}),
          Velocity<World>({p.v[0] * Metre / Second,
                           p.v[1] * Metre / Second,
                           p.v[2] * Metre / Second})};
}

Pt PtOf(Instant const& t, Dof const& dof) {
  auto const q = (dof.position() - World::origin).coordinates();
  auto const v = dof.velocity().coordinates();
  return {t,
          {q.x / Metre, q.y / Metre, q.z / Metre},
          {v.x / (Metre / Second),
           v.y / (Metre / Second),
           v.z / (Metre / Second)}};
}

double Norm(Vec const& a) {
  return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
}

double Distance(Vec const& a, Vec const& b) {
  return Norm({a[0] - b[0], a[1] - b[1], a[2] - b[2]});
}

// The coefficients, in the Чебышёв basis, of the polynomial which goes through
// the ends of 8 equal intervals of [-1, 1], and which minimizes the sum of the
// squares of the errors at their boundaries, with weights 1 for the positions
// and 0.4 for the velocities.
struct Fit {
  explicit Fit(int const degree) : degree(degree) {
    int const n = degree + 1;
    std::vector<std::vector<Quad>> p(9, std::vector<Quad>(n));
    std::vector<std::vector<Quad>> d(9, std::vector<Quad>(n));
    for (int i = 0; i < 9; ++i) {
      Quad const x = static_cast<Quad>(i) / 4 - 1;
      for (int k = 0; k < n; ++k) {
        if (k == 0) {
          p[i][k] = 1;
          d[i][k] = 0;
        } else if (k == 1) {
          p[i][k] = x;
          d[i][k] = 1;
        } else {
          p[i][k] = 2 * x * p[i][k - 1] - p[i][k - 2];
          d[i][k] = 2 * p[i][k - 1] + 2 * x * d[i][k - 1] - d[i][k - 2];
        }
      }
    }
    Quad const w = static_cast<Quad>(4) / 25;
    int const m = n + 4;
    std::vector<std::vector<Quad>> a(m, std::vector<Quad>(m + 18, 0));
    for (int r = 0; r < n; ++r) {
      for (int c = 0; c < n; ++c) {
        for (int i = 0; i < 9; ++i) {
          a[r][c] += p[i][r] * p[i][c] + w * d[i][r] * d[i][c];
        }
      }
      for (int i = 0; i < 9; ++i) {
        a[r][m + i] = p[i][r];
        a[r][m + 9 + i] = w * d[i][r];
      }
      a[r][n] = a[n][r] = p[0][r];
      a[r][n + 1] = a[n + 1][r] = d[0][r];
      a[r][n + 2] = a[n + 2][r] = p[8][r];
      a[r][n + 3] = a[n + 3][r] = d[8][r];
    }
    a[n][m] = 1;
    a[n + 1][m + 9] = 1;
    a[n + 2][m + 8] = 1;
    a[n + 3][m + 17] = 1;
    auto const abs = [](Quad const x) { return x < 0 ? -x : x; };
    for (int c = 0; c < m; ++c) {
      int best = c;
      for (int r = c; r < m; ++r) {
        if (abs(a[r][c]) > abs(a[best][c])) {
          best = r;
        }
      }
      std::swap(a[c], a[best]);
      for (int r = 0; r < m; ++r) {
        if (r != c && a[r][c] != 0) {
          Quad const f = a[r][c] / a[c][c];
          for (int k = c; k < m + 18; ++k) {
            a[r][k] -= f * a[c][k];
          }
        }
      }
    }
    matrix.assign(n, std::vector<long double>(18));
    for (int r = 0; r < n; ++r) {
      for (int k = 0; k < 18; ++k) {
        matrix[r][k] = static_cast<long double>(a[r][m + k] / a[r][r]);
      }
    }
  }

  int degree;
  std::vector<std::vector<long double>> matrix;
};

Fit const& FitOf(int const degree) {
  static std::vector<Fit> const* const fits = [] {
    auto* const result = new std::vector<Fit>;
    for (int d = 3; d <= 17; ++d) {
      result->emplace_back(d);
    }
    return result;
  }();
  return (*fits)[degree - 3];
}

using Coefficients = std::vector<std::array<long double, 3>>;

// The fit of a block of 9 points starting at `block`.
Coefficients Approximate(std::vector<Pt> const& points,
                         std::size_t const first,
                         int const degree) {
  auto const& fit = FitOf(degree);
  long double const h =
      ((points[first + 8].t - points[first].t) / Second) / 2;
  Coefficients c(degree + 1);
  for (int k = 0; k <= degree; ++k) {
    for (int j = 0; j < 3; ++j) {
      // With respect to the middle of the displacements, to avoid
      // cancellations.
      long double s = k == 0 ? points[first].q[j] : 0;
      for (int i = 0; i < 9; ++i) {
        s += fit.matrix[k][i] *
                 (static_cast<long double>(points[first + i].q[j]) -
                  points[first].q[j]) +
             fit.matrix[k][9 + i] * (points[first + i].v[j] * h);
      }
      c[k][j] = s;
    }
  }
  return c;
}

// The value and derivative of the series at x in [-1, 1].
void Evaluate(Coefficients const& c, long double const x, long double const h,
              Vec& q, Vec& v) {
  for (int j = 0; j < 3; ++j) {
    long double p0 = 1;
    long double p1 = x;
    long double d0 = 0;
    long double d1 = 1;
    long double sq = c[0][j] + c[1][j] * x;
    long double sv = c[1][j];
    for (std::size_t k = 2; k < c.size(); ++k) {
      long double const p2 = 2 * x * p1 - p0;
      long double const d2 = 2 * p1 + 2 * x * d1 - d0;
      sq += c[k][j] * p2;
      sv += c[k][j] * d2;
      p0 = p1;
      p1 = p2;
      d0 = d1;
      d1 = d2;
    }
    q[j] = sq;
    v[j] = sv / h;
  }
}

struct Motion {
  int kind;
  double ω;
  double amplitude;
  double eccentricity;
  Vec φ;
  Vec offset;
  Vec drift;

  explicit Motion(Rng& r, double const step) {
    kind = static_cast<int>(Int(r, 0, 9));
    amplitude = std::abs(LogUniform(r, -10, 40));
    ω = std::exp(Uniform(r, std::log(1e-5), std::log(1.0))) / step;
    eccentricity = Uniform(r, 0, 0.95);
    φ = {Uniform(r, 0, 6), Uniform(r, 0, 6), Uniform(r, 0, 6)};
    double const o = Chance(r, 0.3) ? amplitude * 1e4 : amplitude;
    offset = {Uniform(r, -o, o), Uniform(r, -o, o), Uniform(r, -o, o)};
    double const d = Chance(r, 0.5) ? amplitude * ω : 0;
    drift = {Uniform(r, -d, d), Uniform(r, -d, d), Uniform(r, -d, d)};
  }

  Pt operator()(Instant const& time, Rng& r) const {
    double const t = (time - t0) / Second;
    Pt p;
    p.t = time;
    switch (kind) {
      case 0:
        // Uniform.
        p.q = offset;
        p.v = {0, 0, 0};
        break;
      case 1:
      case 2:
      case 3: {
        // An ellipse.
        double const M = std::fmod(ω * t, 2 * M_PI);
        double E = M;
        for (int i = 0; i < 60; ++i) {
          E = M + eccentricity * std::sin(E);
        }
        for (int i = 0; i < 4; ++i) {
          E -= (E - eccentricity * std::sin(E) - M) /
               (1 - eccentricity * std::cos(E));
        }
        double const Ed = ω / (1 - eccentricity * std::cos(E));
        double const b = std::sqrt(1 - eccentricity * eccentricity);
        p.q = {offset[0] + amplitude * (std::cos(E) - eccentricity),
               offset[1] + amplitude * b * std::sin(E) * 0.8,
               offset[2] + amplitude * b * std::sin(E) * 0.6};
        p.v = {-amplitude * std::sin(E) * Ed,
               amplitude * b * std::cos(E) * Ed * 0.8,
               amplitude * b * std::cos(E) * Ed * 0.6};
        break;
      }
      case 4:
        // Noise.
        for (int i = 0; i < 3; ++i) {
          p.q[i] = offset[i] + Uniform(r, -1, 1) * amplitude;
          p.v[i] = Uniform(r, -1, 1) * amplitude * ω;
        }
        break;
      default:
        for (int i = 0; i < 3; ++i) {
          p.q[i] = offset[i] + amplitude * (std::sin(ω * t + φ[i]) +
                                            0.1 * std::sin(5 * ω * t));
          p.v[i] = amplitude * ω * (std::cos(ω * t + φ[i]) +
                                    0.5 * std::cos(5 * ω * t));
        }
        break;
    }
    for (int i = 0; i < 3; ++i) {
      p.q[i] += drift[i] * t;
      p.v[i] += drift[i];
    }
    return p;
  }
};

State StateOf(Trajectory& t) {
  State s;
  t.MakeCheckpointerWriter()(&s);
  return s;
}

struct History {
  std::vector<Pt> points;
  // The state after each polynomial.
  std::vector<State> states;
  // The adjusted tolerance before the first state.
  std::optional<double> initial_tolerance;
};

class Machine {
 public:
  explicit Machine(Rng& r)
      : r_(r),
        step_(Chance(r, 0.5) ? std::exp2(Int(r, -5, 10))
                             : std::exp(Uniform(r, std::log(1e-3),
                                                std::log(1e5)))),
        motion_(r, step_),
        tolerance_(motion_.amplitude *
                   std::exp(Uniform(r, std::log(1e-16), std::log(1e-1)))),
        start_(Chance(r, 0.4)
                   ? 0
                   : (Chance(r, 0.5) ? Uniform(r, -1e5, 1e5)
                                     : Uniform(r, -100, 0)) *
                         step_) {
    motion_kind_ = motion_.kind;
    SetCase(Str("step=", step_, " kind=", motion_.kind, " ω=", motion_.ω,
                " amplitude=", motion_.amplitude, " e=",
                motion_.eccentricity, " tolerance=", tolerance_, " start=",
                start_));
  }

  std::unique_ptr<Trajectory> New() const {
    return std::make_unique<Trajectory>(step_ * Second, tolerance_ * Metre);
  }

  Instant NextTime(History const& h) const {
    // Like an integrator with compensated summation.
    return t0 + static_cast<double>(static_cast<long double>(start_) +
                                    static_cast<long double>(step_) *
                                        h.points.size()) *
                    Second;
  }

  // Appends to the trajectory, and returns false for a failure.
  bool AppendPoint(Trajectory& t, History& h, Pt const& p) {
    absl::Status const status = t.Append(p.t, DofOf(p));
    h.points.push_back(p);
    if (h.points.size() > 1 && h.points.size() % 8 == 1) {
      h.states.push_back(StateOf(t));
      CheckState(h, status.ok());
    } else {
      VERIF(status.ok(), "append:status", status.message());
    }
    return status.ok();
  }

  static double Tolerance(State const& s) {
    return s.adjusted_tolerance().magnitude();
  }

  // The rules that govern the choice of the degree.
  void CheckState(History const& h, bool const ok) {
    State const& s = h.states.back();
    double const previous = h.states.size() == 1
                                ? h.initial_tolerance.value_or(tolerance_)
                                : Tolerance(h.states[h.states.size() - 2]);
    VERIF(s.degree() >= 3 && s.degree() <= 17, "degree", s.degree());
    VERIF(Tolerance(s) >= tolerance_, "adjusted tolerance",
          Tolerance(s) << " for " << tolerance_);
    VERIF(s.is_unstable() || Tolerance(s) == tolerance_,
          "adjusted tolerance:stable", Tolerance(s) << " for " << tolerance_);
    VERIF(ok == (Tolerance(s) < 1e6 * previous), "apocalypse",
          Tolerance(s) << " after " << previous);
    VERIF(s.last_point_size() == 1, "last points", s.last_point_size());
    std::size_t const first = 8 * (h.states.size() - 1);
    auto const c = Approximate(h.points, first, s.degree());
    double error = 0;
    for (int j = 0; j < 3; ++j) {
      error = std::hypot(error, c[s.degree()][j]);
    }
    Count(Str("degree ", s.degree(), s.is_unstable() ? " (unstable)" : ""));
    if (s.is_unstable() || s.degree() == 17) {
      return;
    }
    VERIF(error <= Tolerance(s) * (1 + 1e-6) + 1e-14 * Scale(h.points, first),
          "error estimate",
          "the last coefficient is " << error << " for a tolerance of "
                                     << Tolerance(s) << " with degree "
                                     << s.degree());
  }

  static double Scale(std::vector<Pt> const& points, std::size_t const first) {
    double s = 1e-300;
    double const h =
        (points[first + 8].t - points[first].t) / Second;
    for (std::size_t i = first; i < first + 9; ++i) {
      s = std::max({s, Norm(points[i].q), Norm(points[i].v) * h});
    }
    return s;
  }

  void CheckAt(Trajectory const& t, History const& h, Instant const& time) {
    Dof const dof = t.EvaluateDegreesOfFreedom(time);
    Pt const p = PtOf(time, dof);
    Pt const p2 = PtOf(
        time, Dof(t.EvaluatePosition(time), t.EvaluateVelocity(time)));
    // The block that ends at or after the time.
    std::size_t block = 0;
    while (h.points[8 * (block + 1)].t < time) {
      ++block;
    }
    std::size_t const first = 8 * block;
    double const width =
        (h.points[first + 8].t - h.points[first].t) / Second;
    double const scale = Scale(h.points, first);
    VERIF(Distance(p.q, p2.q) <= 1e-14 * scale &&
              Distance(p.v, p2.v) * width <= 1e-12 * scale,
          "evaluations differ",
          Distance(p.q, p2.q) << " and " << Distance(p.v, p2.v) << " at "
                              << (time - t0) / Second);
    long double const x =
        2 * static_cast<long double>((time - h.points[first].t) / Second) /
            width -
        1;
    double best_q = std::numeric_limits<double>::infinity();
    double best_v = best_q;
    int const d = h.states[block].degree();
    for (int degree = d; degree <= std::min(17, d + 1); ++degree) {
      if (degree != d && !h.states[block].is_unstable()) {
        continue;
      }
      auto const c = Approximate(h.points, first, degree);
      Vec q;
      Vec v;
      Evaluate(c, x, width / 2, q, v);
      best_q = std::min(best_q, Distance(p.q, q));
      best_v = std::min(best_v, Distance(p.v, v) * width);
    }
    // The accuracy of the times.
    double const ε_t =
        std::abs((time - t0) / Second) * 0x1p-52 / width;
    double const d_q = 2 * 0x1p-52 * std::pow(1 + std::sqrt(2), d + 1);
    double const d_v = d_q * (d + 1) * (d + 1);
    Max("error of the position, relative to the rounding",
        best_q / scale / (d_q + 10 * ε_t));
    Max("error of the velocity, relative to the rounding",
        best_v / scale / (d_v + 1000 * ε_t));
    VERIF(best_q <= (d_q + 10 * ε_t) * scale, "not the best fit:position",
          best_q << " for " << scale << " at x=" << static_cast<double>(x)
                 << " with degree " << d);
    VERIF(best_v <= (d_v + 1000 * ε_t) * scale, "not the best fit:velocity",
          best_v << " for " << scale << " at x=" << static_cast<double>(x)
                 << " with degree " << d);
    // The ends of the blocks.
    for (std::size_t const end : {first, first + 8}) {
      if (time == h.points[end].t) {
        Max("error at the ends", Distance(p.q, h.points[end].q) / scale);
        VERIF(Distance(p.q, h.points[end].q) <= (d_q + 10 * ε_t) * scale &&
                  Distance(p.v, h.points[end].v) * width <=
                      (d_v + 1000 * ε_t) * scale,
              "not through the ends",
              Distance(p.q, h.points[end].q)
                  << " and " << Distance(p.v, h.points[end].v) * width
                  << " for " << scale);
      }
    }
  }

  Instant RandomTime(History const& h) {
    std::size_t const blocks = (h.points.size() - 1) / 8;
    Instant const& t_min = h.points.front().t;
    Instant const& t_max = h.points[8 * blocks].t;
    Instant t;
    switch (Int(r_, 0, 4)) {
      case 0:
        t = h.points[Int(r_, 0, 8 * blocks)].t;
        break;
      case 1:
        t = h.points[8 * Int(r_, 0, blocks)].t;
        break;
      case 2: {
        Instant const& b = h.points[8 * Int(r_, 0, blocks)].t;
        double const s = (b - t0) / Second;
        t = t0 + std::nextafter(s, Chance(r_, 0.5) ? 1e300 : -1e300) * Second;
        break;
      }
      default:
        t = t_min + Uniform(r_, 0, 1) * (t_max - t_min);
        break;
    }
    return std::min(std::max(t, t_min), t_max);
  }

  void Check(Trajectory const& t, History const& h) {
    std::size_t const blocks = h.points.empty() ? 0 : (h.points.size() - 1) / 8;
    VERIF(t.empty() == (blocks == 0), "empty", blocks);
    if (blocks == 0) {
      VERIF(t.t_min() == InfiniteFuture && t.t_max() == InfinitePast,
            "bounds:empty", "");
      return;
    }
    VERIF(t.t_min() == h.points.front().t, "t_min",
          (t.t_min() - t0) / Second);
    VERIF(t.t_max() == h.points[8 * blocks].t, "t_max",
          (t.t_max() - t0) / Second);
    for (int i = 0; i < 12; ++i) {
      CheckAt(t, h, RandomTime(h));
    }
  }

  // Bit for bit.
  static bool Same(Trajectory const& a, Trajectory const& b,
                   Instant const& t) {
    return a.EvaluateDegreesOfFreedom(t) == b.EvaluateDegreesOfFreedom(t);
  }

  void Run() {
    History h;
    auto t = New();
    std::vector<Instant> checkpoints;
    // The number of points of the trajectory at each checkpoint.
    std::map<Instant, std::size_t> sizes;
    int const n = static_cast<int>(Int(r_, 0, 200));
    bool ok = true;
    for (int i = 0; i < n && ok; ++i) {
      ok = AppendPoint(*t, h, motion_(NextTime(h), r_));
      if (Chance(r_, i == 0 ? 0.5 : 0.03)) {
        t->WriteToCheckpoint(h.points.back().t);
        checkpoints.push_back(h.points.back().t);
        sizes[h.points.back().t] = h.points.size();
      }
      if (Chance(r_, 0.1)) {
        Check(*t, h);
      }
    }
    Check(*t, h);
    Case(Str("step=", step_, " kind=", motion_kind_, " tolerance=", tolerance_,
             " points=", h.points.size()),
         h.points.size() > 16);
    if (!ok) {
      Count("apocalypses");
      return;
    }
    std::size_t const blocks = h.points.empty() ? 0 : (h.points.size() - 1) / 8;
    if (blocks == 0) {
      return;
    }

    // The order of the evaluations is irrelevant.
    {
      std::vector<std::pair<Instant, Dof>> values;
      for (int i = 0; i < 20; ++i) {
        Instant const time = RandomTime(h);
        values.emplace_back(time, t->EvaluateDegreesOfFreedom(time));
      }
      std::shuffle(values.begin(), values.end(), r_);
      for (auto const& [time, dof] : values) {
        VERIF(t->EvaluateDegreesOfFreedom(time) == dof, "order", "");
      }
    }

    // Prepending.
    {
      std::size_t const cut = 8 * Int(r_, 0, blocks);
      auto prefix = New();
      auto suffix = New();
      History hp;
      History hs;
      for (std::size_t i = 0; i <= cut; ++i) {
        AppendPoint(*prefix, hp, h.points[i]);
      }
      // The prefix may go beyond the cut, but without a polynomial.
      int const extra = static_cast<int>(
          std::min<std::size_t>(Int(r_, 0, 7), h.points.size() - 1 - cut));
      for (int i = 1; i <= extra; ++i) {
        AppendPoint(*prefix, hp, h.points[cut + i]);
      }
      bool const suffix_is_empty = cut == 8 * blocks || Chance(r_, 0.1);
      if (!suffix_is_empty) {
        for (std::size_t i = cut; i < h.points.size(); ++i) {
          AppendPoint(*suffix, hs, h.points[i]);
        }
      }
      // Move the caches.
      for (int i = 0; i < 3; ++i) {
        if (cut > 0) {
          prefix->EvaluatePosition(prefix->t_min() +
                                   Uniform(r_, 0, 1) *
                                       (prefix->t_max() - prefix->t_min()));
        }
        if (!suffix_is_empty) {
          suffix->EvaluatePosition(suffix->t_min() +
                                   Uniform(r_, 0, 1) *
                                       (suffix->t_max() - suffix->t_min()));
        }
      }
      History joined;
      if (suffix_is_empty) {
        joined = hp;
      } else {
        joined.points = h.points;
        joined.states = hp.states;
        joined.states.insert(joined.states.end(), hs.states.begin(),
                             hs.states.end());
      }
      auto reference = New();
      suffix->Prepend(std::move(*prefix));
      Check(*suffix, joined);
      Count("prepends");
      // It may be prolonged.
      if (!(suffix_is_empty && cut == 0)) {
        for (int i = 0; i < 20; ++i) {
          if (!AppendPoint(*suffix, joined, motion_(NextTime(joined), r_))) {
            break;
          }
        }
        Check(*suffix, joined);
      }
    }

    // Serialization.
    if (!checkpoints.empty()) {
      serialization::ContinuousTrajectory message;
      t->WriteToMessage(&message);
      Instant const desired_t_min =
          Chance(r_, 0.5)
              ? checkpoints[Int(r_, 0, checkpoints.size() - 1)]
              : checkpoints.front() +
                    Uniform(r_, 0, 1.2) *
                        (h.points.back().t - checkpoints.front());
      serialization::ContinuousTrajectory parsed;
      HARNESS_CHECK(parsed.ParseFromString(message.SerializeAsString()));
      auto const read = Trajectory::ReadFromMessage(desired_t_min, parsed);
      Instant const checkpoint =
          *std::prev(std::upper_bound(checkpoints.begin(), checkpoints.end(),
                                      desired_t_min));
      Instant const oldest = checkpoints.front();
      // Polynomials are only retained before the oldest checkpoint.
      bool const retained = sizes[oldest] > 8;
      bool const at_oldest = checkpoint == oldest;
      std::size_t const size = sizes[checkpoint];
      History hr;
      if (retained && !at_oldest) {
        // There is a gap.
        Count("reads with a gap");
        return;
      }
      if (retained) {
        hr.points.assign(h.points.begin(), h.points.begin() + size);
        hr.states.assign(h.states.begin(), h.states.begin() + (size - 1) / 8);
      } else {
        // Only the last points remain.
        std::size_t const k = 8 * ((size - 1) / 8);
        hr.points.assign(h.points.begin() + k, h.points.begin() + size);
        if (k > 0) {
          hr.initial_tolerance = Tolerance(h.states[k / 8 - 1]);
        }
      }
      Check(*read, hr);
      std::size_t const k = h.points.size() - size;
      for (std::size_t i = 0; i < k; ++i) {
        AppendPoint(*read, hr, h.points[size + i]);
      }
      if (k > 0) {
        Check(*read, hr);
      }
      if (!read->empty()) {
        VERIF(read->t_min() <= std::max(desired_t_min, checkpoint),
              "serialization:t_min", "");
        for (int i = 0; i < 10; ++i) {
          Instant const time = RandomTime(h);
          // At the first time, the other trajectory may use the preceding
          // polynomial.
          if ((read->t_min() == t->t_min() ? read->t_min() <= time
                                           : read->t_min() < time) &&
              time <= read->t_max()) {
            VERIF(Same(*read, *t, time), "serialization:evaluation",
                  (time - t0) / Second);
            Count("evaluations after reading");
          }
        }
        VERIF(StateOf(*read).SerializePartialAsString() ==
                  StateOf(*t).SerializePartialAsString(),
              "serialization:state", "");
      }
      serialization::ContinuousTrajectory message2;
      read->WriteToMessage(&message2);
      if (!retained) {
        // There is nothing before the checkpoint.
        message.clear_first_time();
        message2.clear_first_time();
      }
      VERIF(message2.SerializeAsString() == message.SerializeAsString(),
            "serialization:written again", "");
    }
  }

  // Threads evaluate while another one appends.
  void RunThreads() {
    History h;
    auto t = New();
    auto reference = New();
    int const n = 8 * static_cast<int>(Int(r_, 3, 12)) + 1;
    std::vector<Pt> points;
    for (int i = 0; i < n; ++i) {
      if (!AppendPoint(*reference, h, motion_(NextTime(h), r_))) {
        return;
      }
    }
    std::size_t const head = 8 * Int(r_, 1, 2) + 1;
    std::size_t const cut = Chance(r_, 0.5) ? 8 : 0;
    for (std::size_t i = cut; i < cut + head; ++i) {
      t->Append(h.points[i].t, DofOf(h.points[i])).IgnoreError();
    }
    std::atomic<bool> done = false;
    std::atomic<std::int64_t> evaluations = 0;
    std::vector<std::thread> threads;
    std::vector<std::vector<std::pair<Instant, Dof>>> values(3);
    for (int k = 0; k < 3; ++k) {
      std::uint64_t const seed = r_();
      threads.emplace_back([&, k, seed] {
        Rng r(seed);
        for (int i = 0; i < 100 || !done; ++i) {
          Instant const t_min = t->t_min();
          Instant const t_max = t->t_max();
          VERIF(!t->empty() && t_min < t_max, "threads:bounds", "");
          Instant const time = t_min + Uniform(r, 0, 1) * (t_max - t_min);
          Instant const inside = std::min(std::max(time, t_min), t_max);
          Dof const dof = t->EvaluateDegreesOfFreedom(inside);
          if (values[k].size() < 1000) {
            values[k].emplace_back(inside, dof);
          }
          ++evaluations;
        }
      });
    }
    for (std::size_t i = cut + head; i < h.points.size(); ++i) {
      t->Append(h.points[i].t, DofOf(h.points[i])).IgnoreError();
      if (Chance(r_, 0.1)) {
        std::this_thread::yield();
      }
      if (cut > 0 && i == cut + head + 3) {
        auto prefix = New();
        for (std::size_t j = 0; j <= cut; ++j) {
          prefix->Append(h.points[j].t, DofOf(h.points[j])).IgnoreError();
        }
        t->Prepend(std::move(*prefix));
      }
    }
    done = true;
    for (auto& thread : threads) {
      thread.join();
    }
    // Without a prefix, the result is deterministic.
    for (auto const& v : values) {
      for (auto const& [time, dof] : v) {
        VERIF(t->EvaluateDegreesOfFreedom(time) == dof, "threads:evaluation",
              (time - t0) / Second);
        if (cut == 0) {
          VERIF(reference->EvaluateDegreesOfFreedom(time) == dof,
                "threads:reference", (time - t0) / Second);
        }
      }
    }
    Count("concurrent evaluations", evaluations);
    Case(Str("threads, step=", step_, " points=", n, " tolerance=",
             tolerance_));
  }

 private:
  Rng& r_;
  double const step_;
  Motion const motion_;
  double const tolerance_;
  double const start_;
  int motion_kind_;
};

void Body() {
  auto r = MakeRng("histories");
  if (Selected("sequential")) {
    for (std::int64_t i = 0; i < N(400); ++i) {
      Machine(r).Run();
    }
  }
  if (Selected("threads")) {
    for (std::int64_t i = 0; i < N(60); ++i) {
      Machine(r).RunThreads();
    }
  }
}

}  // namespace

VERIF_MAIN(Body)
