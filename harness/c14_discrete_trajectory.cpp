// C14: histories of operations on discrete trajectories, against a naive model.
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <optional>

#include "geometry/frame.hpp"
#include "geometry/instant.hpp"
#include "geometry/space.hpp"
#include "physics/degrees_of_freedom.hpp"
#include "physics/discrete_trajectory.hpp"
#include "physics/discrete_trajectory_segment.hpp"
#include "physics/discrete_trajectory_segment_iterator.hpp"
#include "physics/discrete_trajectory_types.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "serialization/physics.pb.h"
#include "verif.hpp"

using namespace principia::geometry::_frame;
using namespace principia::geometry::_instant;
using namespace principia::geometry::_space;
using namespace principia::physics::_degrees_of_freedom;
using namespace principia::physics::_discrete_trajectory;
using namespace principia::physics::_discrete_trajectory_segment;
using namespace principia::physics::_discrete_trajectory_types;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace verif;
namespace serialization = principia::serialization;

namespace {

using World = Frame<serialization::Frame::TestTag,
                    Inertial,
                    Handedness::Right,
                    serialization::Frame::TEST>;
using Trajectory = DiscreteTrajectory<World>;
using Dof = DegreesOfFreedom<World>;
Instant const t0;

struct Pt {
  double t;
  std::array<double, 3> q;
  std::array<double, 3> v;
  friend bool operator==(Pt const&, Pt const&) = default;
};

Instant At(double const t) { return t0 + t * Second; }

Dof DofOf(Pt const& p) {
  return {World::origin +
              Displacement<World>(
                  {p.q[0] * Metre, p.q[1] * Metre, p.q[2] * Metre}),
          Velocity<World>({p.v[0] * Metre / Second,
                           p.v[1] * Metre / Second,
                           p.v[2] * Metre / Second})};
}

Pt PtOf(Instant const& t, Dof const& dof) {
  auto const q = (dof.position() - World::origin).coordinates();
  auto const v = dof.velocity().coordinates();
  return {(t - t0) / Second,
          {q.x / Metre, q.y / Metre, q.z / Metre},
          {v.x / (Metre / Second),
           v.y / (Metre / Second),
           v.z / (Metre / Second)}};
}

std::string Print(Pt const& p) {
  return Str("(", p.t, ": ", p.q[0], ", ", p.q[1], ", ", p.q[2], "; ", p.v[0],
             ", ", p.v[1], ", ", p.v[2], ")");
}

// The cubic that interpolates two points.
Pt Hermite(Pt const& a, Pt const& b, double const t) {
  Pt r;
  r.t = t;
  long double const h = static_cast<long double>(b.t) - a.t;
  long double const s = (static_cast<long double>(t) - a.t) / h;
  for (int i = 0; i < 3; ++i) {
    long double const d = static_cast<long double>(b.q[i]) - a.q[i];
    long double const c2 = 3 * d - h * (2.0L * a.v[i] + b.v[i]);
    long double const c3 = -2 * d + h * (static_cast<long double>(a.v[i]) +
                                         b.v[i]);
    r.q[i] = a.q[i] + s * (h * a.v[i] + s * (c2 + s * c3));
    r.v[i] = a.v[i] + s / h * (2 * c2 + 3 * s * c3);
  }
  return r;
}

double Distance(std::array<double, 3> const& a,
                std::array<double, 3> const& b) {
  return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) +
                   (a[1] - b[1]) * (a[1] - b[1]) +
                   (a[2] - b[2]) * (a[2] - b[2]));
}

double Scale(Pt const& a, Pt const& b) {
  double s = 1e-300;
  for (int i = 0; i < 3; ++i) {
    s = std::max({s, std::abs(a.q[i]), std::abs(b.q[i]),
                  std::abs(a.v[i]) * (b.t - a.t),
                  std::abs(b.v[i]) * (b.t - a.t)});
  }
  return s;
}

struct Segment {
  std::vector<Pt> kept;
  // All the points ever appended between the first and the last point kept.
  std::vector<Pt> history;
  std::optional<double> tolerance;
  // How much the curve may deviate from the history because of successive
  // tolerances or compressions.
  double slack = 0;

  void TrimHistory() {
    if (kept.empty()) {
      history.clear();
      return;
    }
    std::vector<Pt> h;
    for (auto const& p : history) {
      if (p.t >= kept.front().t && p.t <= kept.back().t) {
        h.push_back(p);
      }
    }
    // A forgetting may cut between two points of the history; the new ends are
    // always points of the history.
    history = h;
  }
};

struct Model {
  std::vector<Segment> segments = std::vector<Segment>(1);

  bool empty() const {
    for (auto const& s : segments) {
      if (!s.kept.empty()) {
        return false;
      }
    }
    return true;
  }

  std::vector<Pt> Points() const {
    std::vector<Pt> r;
    for (auto const& s : segments) {
      for (auto const& p : s.kept) {
        if (r.empty() || r.back().t != p.t) {
          r.push_back(p);
        }
      }
    }
    return r;
  }

  // The last segment that starts at or before `t`, or -1.
  int Find(double const t) const {
    int r = -1;
    for (int i = 0; i < static_cast<int>(segments.size()); ++i) {
      if (!segments[i].kept.empty() && segments[i].kept.front().t <= t) {
        r = i;
      }
    }
    return r;
  }
};

// Where the particle is.
struct Motion {
  double ω;
  double amplitude;
  double noise;
  std::array<double, 3> φ;
  double kick;

  Pt operator()(double const t, Rng& r) const {
    Pt p;
    p.t = t;
    double const x = noise * amplitude;
    for (int i = 0; i < 3; ++i) {
      p.q[i] = amplitude * (std::sin(ω * t + φ[i]) +
                            0.3 * std::sin(2.7 * ω * t + 2 * φ[i])) +
               Uniform(r, -x, x);
      p.v[i] = amplitude * ω * (std::cos(ω * t + φ[i]) +
                                0.81 * std::cos(2.7 * ω * t + 2 * φ[i])) +
               Uniform(r, -x, x) * ω;
      if (std::fmod(t, 1000) > 900) {
        p.q[i] += kick;
      }
    }
    return p;
  }
};

class Machine {
 public:
  explicit Machine(Rng& r) : r_(r) {
    motion_.ω = std::exp(Uniform(r, std::log(1e-4), std::log(1e-1)));
    motion_.amplitude = std::exp(Uniform(r, std::log(1.0), std::log(1e9)));
    motion_.noise = Chance(r, 0.2) ? 1e-3 : 0;
    motion_.kick = Chance(r, 0.2) ? motion_.amplitude * 0.1 : 0;
    motion_.φ = {Uniform(r, 0, 6), Uniform(r, 0, 6), Uniform(r, 0, 6)};
    now_ = Uniform(r, -1e4, 1e4);
  }

  double Step() {
    return Chance(r_, 0.1) ? Uniform(r_, 1, 3) / motion_.ω
                           : Uniform(r_, 0.01, 0.3) / motion_.ω;
  }

  double Tolerance() {
    return motion_.amplitude * std::exp(Uniform(r_, std::log(1e-7),
                                                std::log(1e-1)));
  }

  void Note(std::string const& s) {
    log_ += s + " ";
    SetCase(log_);
  }

  // Appends to both, and synchronizes the model when points are dropped.
  void AppendTo(Trajectory& t, Model& m, Pt const& p) {
    int const i = m.empty() ? static_cast<int>(m.segments.size()) - 1
                            : m.Find(p.t);
    Segment& s = m.segments[i];
    auto const status = t.Append(At(p.t), DofOf(p));
    VERIF(status.ok(), "append:status", status.message());
    if (!s.kept.empty() && s.kept.front().t == p.t) {
      // Ignored, with a warning.
      return;
    }
    std::int64_t const size =
        std::next(t.segments().begin(), i)->size();
    bool const may_drop = s.tolerance.has_value() && s.kept.size() > 1;
    if (size == static_cast<std::int64_t>(s.kept.size()) && may_drop) {
      Count("points dropped");
      s.kept.back() = p;
    } else {
      s.kept.push_back(p);
      if (may_drop) {
        Count("points kept by the tolerance");
      }
    }
    s.history.push_back(p);
  }

  void Append() {
    int const n = static_cast<int>(Int(r_, 1, Chance(r_, 0.2) ? 60 : 8));
    Note(Str("append*", n));
    for (int k = 0; k < n; ++k) {
      if (!m_.empty()) {
        now_ = m_.Points().back().t + Step();
        if (Chance(r_, 0.03) && m_.segments.back().kept.size() == 1) {
          now_ = m_.Points().back().t;
        }
      }
      AppendTo(t_, m_, motion_(now_, r_));
    }
  }

  void NewSegment() {
    if (m_.segments.back().kept.empty() && !m_.empty()) {
      return;
    }
    Note("new");
    auto const sit = t_.NewSegment();
    Segment s;
    if (!m_.segments.back().kept.empty()) {
      s.kept.push_back(m_.segments.back().kept.back());
      s.history = s.kept;
    }
    m_.segments.push_back(s);
    VERIF(sit == std::prev(t_.segments().end()), "new segment:iterator", "");
  }

  void SetDownsampling() {
    auto const sit = std::prev(t_.segments().end());
    if (m_.segments.back().kept.size() > 1) {
      if (Chance(r_, 0.1)) {
        Note("no-downsampling");
        sit->ClearDownsampling();
        m_.segments.back().slack +=
            2 * m_.segments.back().tolerance.value_or(0);
        m_.segments.back().tolerance = std::nullopt;
      }
      return;
    }
    double const tolerance = Tolerance();
    Note(Str("downsampling(", tolerance, ")"));
    sit->SetDownsampling({.tolerance = tolerance * Metre});
    m_.segments.back().tolerance = tolerance;
  }

  // A time at, between or outside of the points.
  double RandomTime() {
    auto const points = m_.Points();
    if (points.empty()) {
      return Uniform(r_, -1e4, 1e4);
    }
    auto const& p =
        points[Int(r_, 0, static_cast<std::int64_t>(points.size()) - 1)];
    switch (Int(r_, 0, 9)) {
      case 0:
        return points.front().t - Uniform(r_, 0, 2) * Step();
      case 1:
        return points.back().t + Uniform(r_, 0, 2) * Step();
      case 2:
      case 3:
        return p.t + Uniform(r_, -1, 1) * Step();
      case 4:
        return std::nextafter(p.t, Chance(r_, 0.5) ? 1e300 : -1e300);
      case 5:
      case 6: {
        // An end of a segment.
        auto const& s = m_.segments[Int(
            r_, 0, static_cast<std::int64_t>(m_.segments.size()) - 1)];
        return s.kept.empty() ? p.t
               : Chance(r_, 0.5) ? s.kept.front().t
                                 : s.kept.back().t;
      }
      default:
        return p.t;
    }
  }

  static void ModelForgetAfter(Model& m, double const t) {
    int i = m.Find(t);
    if (i < 0) {
      m.segments.resize(1);
      m.segments[0] = Segment();
      return;
    }
    while (i > 0 && !m.segments[i - 1].kept.empty() &&
           m.segments[i - 1].kept.front().t == t) {
      --i;
    }
    auto& s = m.segments[i];
    while (!s.kept.empty() && s.kept.back().t >= t) {
      s.kept.pop_back();
    }
    s.TrimHistory();
    m.segments.resize(s.kept.empty() && i > 0 ? i : i + 1);
  }

  static void ModelForgetBefore(Model& m, double const t) {
    for (auto& s : m.segments) {
      while (!s.kept.empty() && s.kept.front().t < t) {
        s.kept.erase(s.kept.begin());
      }
      s.TrimHistory();
    }
  }

  void ForgetAfter() {
    double const t = RandomTime();
    auto const it = t_.lower_bound(At(t));
    if (it != t_.end() && it->time == At(t) && Chance(r_, 0.5)) {
      Note(Str("forget-after-it(", t, ")"));
      t_.ForgetAfter(it);
    } else if (Chance(r_, 0.05)) {
      Note("forget-after-end");
      t_.ForgetAfter(t_.end());
      return;
    } else {
      Note(Str("forget-after(", t, ")"));
      t_.ForgetAfter(At(t));
    }
    ModelForgetAfter(m_, t);
  }

  void ForgetBefore() {
    double const t = RandomTime();
    auto const it = t_.lower_bound(At(t));
    if (it != t_.end() && it->time == At(t) && Chance(r_, 0.5)) {
      Note(Str("forget-before-it(", t, ")"));
      t_.ForgetBefore(it);
    } else {
      Note(Str("forget-before(", t, ")"));
      t_.ForgetBefore(At(t));
    }
    ModelForgetBefore(m_, t);
  }

  void Clear() {
    Note("clear");
    t_.clear();
    m_.segments.resize(1);
    m_.segments[0] = Segment();
  }

  // Finds a segment after the first that is not empty.
  int RandomNonEmptySegment() {
    if (m_.segments.size() < 2) {
      return -1;
    }
    int const i = static_cast<int>(
        Int(r_, 1, static_cast<std::int64_t>(m_.segments.size()) - 1));
    return m_.segments[i].kept.empty() ? -1 : i;
  }

  void Detach() {
    int const i = RandomNonEmptySegment();
    if (i < 0) {
      return;
    }
    Note(Str("detach(", i, ")"));
    auto detached = t_.DetachSegments(std::next(t_.segments().begin(), i));
    Model detached_model;
    detached_model.segments.assign(m_.segments.begin() + i, m_.segments.end());
    m_.segments.resize(i);
    Check(t_, m_, "detach");
    Check(detached, detached_model, "detached");
    switch (Int(r_, 0, 2)) {
      case 0: {
        // Attach it again.
        if (m_.empty()) {
          return;
        }
        Note("attach again");
        auto const sit = t_.AttachSegments(std::move(detached));
        VERIF(sit == std::next(t_.segments().begin(), i), "attach:iterator",
              "");
        m_.segments.insert(m_.segments.end(), detached_model.segments.begin(),
                           detached_model.segments.end());
        break;
      }
      case 1:
        Note("keep detached");
        t_ = std::move(detached);
        m_ = detached_model;
        break;
      default:
        Note("drop detached");
    }
  }

  void Attach() {
    Note("attach new");
    Trajectory other;
    Model other_model;
    double t = m_.empty() ? now_ : m_.Points().back().t;
    bool const same = !m_.empty() && Chance(r_, 0.5);
    if (!same) {
      t += Step();
    }
    if (Chance(r_, 0.5)) {
      double const tolerance = Tolerance();
      other.segments().begin()->SetDownsampling({.tolerance =
                                                     tolerance * Metre});
      other_model.segments[0].tolerance = tolerance;
    }
    int const segments = static_cast<int>(Int(r_, 1, 3));
    for (int k = 0; k < segments; ++k) {
      if (k > 0) {
        other.NewSegment();
        Segment s;
        s.kept.push_back(other_model.segments.back().kept.back());
        s.history = s.kept;
        other_model.segments.push_back(s);
      }
      int const n = static_cast<int>(Int(r_, k == 0 ? 1 : 0, 12));
      for (int j = 0; j < n; ++j) {
        Pt const p = same && k == 0 && j == 0 ? m_.Points().back()
                                              : motion_(t, r_);
        AppendTo(other, other_model, p);
        t += Step();
      }
    }
    if (!same && Chance(r_, 0.4)) {
      // Leave only some points, but do not empty the first segment.
      auto const& kept = other_model.segments[0].kept;
      double const b = kept[Int(r_, 0, kept.size() - 1)].t;
      Note(Str("forget-before(", b, ")"));
      other.ForgetBefore(At(b));
      ModelForgetBefore(other_model, b);
    }
    Check(other, other_model, "attach:other");
    bool const was_empty = m_.empty();
    if (!was_empty && !same) {
      // A point is added to connect the segments.
      auto& s = other_model.segments[0];
      s.kept.insert(s.kept.begin(), m_.Points().back());
      s.history.insert(s.history.begin(), m_.Points().back());
    }
    auto const sit = t_.AttachSegments(std::move(other));
    std::int64_t const position = was_empty ? 0 : m_.segments.size();
    VERIF(sit == std::next(t_.segments().begin(), position), "attach:iterator",
          position);
    if (was_empty) {
      m_.segments.clear();
    }
    m_.segments.insert(m_.segments.end(), other_model.segments.begin(),
                       other_model.segments.end());
  }

  void Delete() {
    if (m_.segments.size() < 2) {
      return;
    }
    int const i = static_cast<int>(
        Int(r_, 1, static_cast<std::int64_t>(m_.segments.size()) - 1));
    Note(Str("delete(", i, ")"));
    auto sit = std::next(t_.segments().begin(), i);
    t_.DeleteSegments(sit);
    VERIF(sit == t_.segments().end(), "delete:iterator", "");
    m_.segments.resize(i);
  }

  void Move() {
    Note("move");
    // Iterators survive the move of the trajectory.
    auto const first = t_.segments().begin();
    auto const points = m_.Points();
    std::int64_t const k =
        points.empty()
            ? 0
            : Int(r_, 0, static_cast<std::int64_t>(points.size()) - 1);
    auto it = std::next(t_.begin(), k);
    auto const sit =
        std::next(first, Int(r_, 0, static_cast<std::int64_t>(
                                        m_.segments.size()) - 1));
    std::int64_t const position = std::distance(first, sit);
    Trajectory moved(std::move(t_));
    t_ = std::move(moved);
    VERIF(t_.segments().begin() == first, "move:first", "");
    VERIF(std::next(t_.segments().begin(), position) == sit, "move:segment",
          position);
    for (std::size_t j = k; j < points.size(); ++j, ++it) {
      VERIF(it != t_.end() && PtOf(it->time, it->degrees_of_freedom) ==
                                  points[j],
            "move:points", j);
    }
    VERIF(it == t_.end(), "move:end", "");
  }

  // Writes the points in [begin, end[, and reads them.
  Trajectory Write(Trajectory const& t,
                   Model const& m,
                   std::optional<double> const begin,
                   std::optional<double> const end,
                   bool const exact_points,
                   Model& result,
                   std::vector<Trajectory::SegmentIterator>& tracked) {
    auto const begin_it = begin.has_value() ? t.lower_bound(At(*begin))
                                            : t.begin();
    auto const end_it = end.has_value() ? t.lower_bound(At(*end)) : t.end();
    std::vector<Trajectory::iterator> exact;
    for (auto it = begin_it; it != end_it; ++it) {
      if (exact_points || Chance(r_, 0.05)) {
        exact.push_back(it);
      }
    }
    serialization::DiscreteTrajectory message;
    if (begin.has_value() || end.has_value()) {
      t.WriteToMessage(&message, begin_it, end_it, tracked, exact);
    } else {
      t.WriteToMessage(&message, tracked, exact);
    }
    std::vector<std::int64_t> positions;
    for (auto const& s : tracked) {
      positions.push_back(std::distance(t.segments().begin(), s));
    }
    std::vector<Trajectory::SegmentIterator*> pointers;
    for (auto& s : tracked) {
      pointers.push_back(&s);
    }
    serialization::DiscreteTrajectory parsed;
    HARNESS_CHECK(parsed.ParseFromString(message.SerializeAsString()));
    auto read = Trajectory::ReadFromMessage(parsed, pointers, /*quiet=*/true);

    // What should have been written.
    result.segments.clear();
    double const begin_time =
        begin_it == t.end() ? std::numeric_limits<double>::infinity()
                            : (begin_it->time - t0) / Second;
    double const end_time =
        end_it == t.end() ? std::numeric_limits<double>::infinity()
                          : (end_it->time - t0) / Second;
    bool seen = false;
    for (auto const& s : m.segments) {
      Segment w = s;
      std::erase_if(w.kept, [&](Pt const& p) {
        return p.t < begin_time || p.t >= end_time;
      });
      w.TrimHistory();
      bool const any = !w.kept.empty();
      if (seen && !any) {
        break;
      }
      seen |= any;
      result.segments.push_back(w);
    }
    if (result.segments.empty()) {
      result.segments.emplace_back();
    }
    std::int64_t const count = result.segments.size();
    for (std::size_t k = 0; k < tracked.size(); ++k) {
      std::int64_t const expected = positions[k];
      if (expected >= count) {
        VERIF(tracked[k] == read.segments().end(), "serialization:tracked",
              "a segment not written is at "
                  << std::distance(read.segments().begin(), tracked[k]));
      } else {
        VERIF(tracked[k] == std::next(read.segments().begin(), expected),
              "serialization:tracked",
              std::distance(read.segments().begin(), tracked[k])
                  << " instead of " << expected);
      }
    }
    if (!exact_points) {
      // The points may be altered, to within the tolerance.
      std::int64_t k = 0;
      VERIF(read.segments().size() == static_cast<std::size_t>(count),
            "serialization:segments",
            read.segments().size() << " instead of " << count);
      for (auto const& sr : read.segments()) {
        if (k >= count) {
          break;
        }
        auto& s = result.segments[k++];
        VERIF(sr.size() == static_cast<std::int64_t>(s.kept.size()),
              "serialization:size", sr.size());
        std::int64_t j = 0;
        auto jt = sr.begin();
        double speed_slack = 0;
        for (std::size_t i = 1; i < s.kept.size(); ++i) {
          speed_slack = std::max(speed_slack,
                                 s.kept[i].t - s.kept[i - 1].t);
        }
        double const tolerance = s.tolerance.value_or(0);
        for (; j < static_cast<std::int64_t>(s.kept.size()) &&
               j < sr.size();
             ++j) {
          Pt const p = PtOf(jt->time, jt->degrees_of_freedom);
          bool const end = j == 0 || j + 1 ==
                               static_cast<std::int64_t>(s.kept.size());
          bool is_exact = end;
          for (auto const& e : exact) {
            is_exact |= e->time == jt->time;
          }
          if (is_exact || tolerance == 0) {
            VERIF(p == s.kept[j], "serialization:exact point",
                  Print(p) << " instead of " << Print(s.kept[j]));
          } else {
            VERIF(p.t == s.kept[j].t, "serialization:time", p.t);
            for (int i = 0; i < 3; ++i) {
              VERIF(std::abs(p.q[i] - s.kept[j].q[i]) <= tolerance,
                    "serialization:position error",
                    p.q[i] - s.kept[j].q[i] << " for " << tolerance);
              VERIF(std::abs(p.v[i] - s.kept[j].v[i]) * speed_slack <=
                        tolerance * (1 + 1e-10),
                    "serialization:velocity error",
                    p.v[i] - s.kept[j].v[i] << " for " << tolerance);
            }
          }
          s.kept[j] = p;
          if (j + 1 < sr.size()) {
            ++jt;
          }
        }
        if (tolerance > 0) {
          s.slack += 6 * tolerance;
        }
      }
    } else {
      serialization::DiscreteTrajectory message2;
      std::vector<Trajectory::iterator> exact2;
      for (auto it = read.begin(); it != read.end(); ++it) {
        exact2.push_back(it);
      }
      read.WriteToMessage(&message2, tracked, exact2);
      if (!begin.has_value() && !end.has_value()) {
        VERIF(message2.SerializeAsString() == message.SerializeAsString(),
              "serialization:written again", "");
      }
    }
    return read;
  }

  std::vector<Trajectory::SegmentIterator> RandomTracked() {
    std::vector<Trajectory::SegmentIterator> tracked;
    for (auto sit = t_.segments().begin(); sit != t_.segments().end(); ++sit) {
      while (Chance(r_, 0.4)) {
        tracked.push_back(sit);
      }
    }
    if (Chance(r_, 0.3)) {
      tracked.push_back(t_.segments().end());
    }
    return tracked;
  }

  void Serialize() {
    bool const exact = Chance(r_, 0.7);
    auto tracked = RandomTracked();
    Model result;
    std::optional<double> begin;
    std::optional<double> end;
    if (!m_.empty() && Chance(r_, 0.4)) {
      double a = RandomTime();
      double b = RandomTime();
      if (a > b) {
        std::swap(a, b);
      }
      if (Chance(r_, 0.7)) {
        begin = a;
      }
      if (Chance(r_, 0.5)) {
        end = b;
      }
      auto const begin_it = begin.has_value() ? t_.lower_bound(At(*begin))
                                              : t_.begin();
      auto const end_it = end.has_value() ? t_.lower_bound(At(*end))
                                          : t_.end();
      if (begin_it == end_it) {
        // Not interesting.
        return;
      }
    }
    Note(Str("serialize(", exact, ", ", begin.value_or(-0.1), ", ",
             end.value_or(-0.1), ")"));
    Trajectory read = Write(t_, m_, begin, end, exact, result, tracked);
    if (Chance(r_, 0.5)) {
      Note("keep");
      t_ = std::move(read);
      m_ = result;
    } else {
      Check(read, result, "read");
    }
  }

  // Cuts the trajectory in two parts, and merges them.
  void Merge() {
    if (m_.empty()) {
      return;
    }
    double const t = RandomTime();
    auto const it = t_.lower_bound(At(t));
    if (it == t_.end() || it == t_.begin()) {
      return;
    }
    double const cut = (it->time - t0) / Second;
    bool const tail = Chance(r_, 0.5);
    // Whether the two parts have a point in common.
    bool common = Chance(r_, 0.5);
    if (auto const next_it = std::next(it); next_it != t_.end()) {
      for (auto const& s : m_.segments) {
        // Forgetting after the end of a segment retains it.
        common &= s.kept.empty() || At(s.kept.front().t) != next_it->time;
      }
    }
    Note(Str("merge(", cut, ", ", tail, ", ", common, ")"));
    std::optional<double> after_cut = cut;
    if (common) {
      auto const next_it = std::next(it);
      after_cut = next_it == t_.end()
                      ? std::nullopt
                      : std::optional((next_it->time - t0) / Second);
    }
    std::vector<Trajectory::SegmentIterator> tracked;
    Model part;
    Model const before = m_;
    if (tail) {
      Trajectory read = Write(t_, m_, cut, std::nullopt, /*exact_points=*/true,
                              part, tracked);
      Check(read, part, "merge:tail");
      Model head = m_;
      if (after_cut.has_value()) {
        t_.ForgetAfter(At(*after_cut));
        ModelForgetAfter(head, *after_cut);
      }
      Check(t_, head, "merge:head");
      t_.Merge(std::move(read));
    } else {
      Trajectory read = Write(t_, m_, std::nullopt, after_cut,
                              /*exact_points=*/true, part, tracked);
      Check(read, part, "merge:head");
      t_.ForgetBefore(At(cut));
      ModelForgetBefore(m_, cut);
      Check(t_, m_, "merge:tail");
      if (Chance(r_, 0.5)) {
        t_.Merge(std::move(read));
      } else {
        read.Merge(std::move(t_));
        t_ = std::move(read);
      }
    }
    m_ = before;
    if (!common) {
      // Neither part knows about the points that were dropped in the gap.
      for (auto& s : m_.segments) {
        auto const k = std::find_if(s.kept.begin(), s.kept.end(),
                                    [&](Pt const& p) { return p.t == cut; });
        if (k != s.kept.end() && k != s.kept.begin()) {
          double const last = std::prev(k)->t;
          std::erase_if(s.history, [&](Pt const& p) {
            return p.t > last && p.t < cut;
          });
        }
      }
    }
    Count("merges");
  }

  void Check(Trajectory const& t, Model const& m, std::string const& what) {
    auto const key = [&](std::string const& s) { return s; };
    auto const context = [&] { return " after " + what + "; "; };
    VERIF(t.segments().size() == m.segments.size(), key("segments"),
          t.segments().size() << " instead of " << m.segments.size()
                              << context());
    if (t.segments().size() != m.segments.size()) {
      return;
    }
    auto const points = m.Points();
    VERIF(t.empty() == points.empty(), key("empty"), context());
    VERIF(t.size() == static_cast<std::int64_t>(points.size()), key("size"),
          t.size() << " instead of " << points.size() << context());
    {
      std::size_t k = 0;
      for (auto const& s : t.segments()) {
        auto const& ms = m.segments[k];
        VERIF(s.empty() == ms.kept.empty() &&
                  s.size() == static_cast<std::int64_t>(ms.kept.size()),
              key("segment size"),
              "segment " << k << " has " << s.size() << " points instead of "
                         << ms.kept.size() << context());
        if (s.size() != static_cast<std::int64_t>(ms.kept.size())) {
          return;
        }
        if (!s.empty()) {
          VERIF(PtOf(s.front().time, s.front().degrees_of_freedom) ==
                    ms.kept.front(),
                key("segment front"), k << context());
          VERIF(PtOf(s.back().time, s.back().degrees_of_freedom) ==
                    ms.kept.back(),
                key("segment back"), k << context());
          VERIF(s.t_min() == At(ms.kept.front().t) &&
                    s.t_max() == At(ms.kept.back().t),
                key("segment bounds"), k << context());
        } else {
          VERIF(s.t_min() == InfiniteFuture && s.t_max() == InfinitePast,
                key("segment bounds"), k << context());
        }
        std::size_t j = 0;
        for (auto const& [time, dof] : s) {
          VERIF(j < ms.kept.size() && PtOf(time, dof) == ms.kept[j],
                key("segment point"),
                "point " << j << " of segment " << k << context());
          ++j;
        }
        VERIF(j == ms.kept.size(), key("segment iteration"), j << context());
        for (auto it = s.rbegin(); it != s.rend(); ++it) {
          --j;
          VERIF(j < ms.kept.size() && PtOf(it->time, it->degrees_of_freedom) ==
                                          ms.kept[j],
                key("segment reverse"), j << context());
        }
        ++k;
      }
      for (auto const& s : t.rsegments()) {
        --k;
        VERIF(s.size() == static_cast<std::int64_t>(m.segments[k].kept.size()),
              key("rsegments"), k << context());
      }
    }
    std::size_t j = 0;
    for (auto const& [time, dof] : t) {
      VERIF(j < points.size() && PtOf(time, dof) == points[j], key("iteration"),
            "point " << j << context());
      ++j;
    }
    VERIF(j == points.size(), key("iteration"), j << context());
    for (auto it = t.rbegin(); it != t.rend(); ++it) {
      --j;
      VERIF(j < points.size() &&
                PtOf(it->time, it->degrees_of_freedom) == points[j],
            key("reverse iteration"), j << context());
    }
    if (points.empty()) {
      VERIF(t.begin() == t.end() && t.t_min() == InfiniteFuture &&
                t.t_max() == InfinitePast && t.find(t0) == t.end() &&
                t.lower_bound(t0) == t.end() && t.upper_bound(t0) == t.end(),
            key("empty trajectory"), context());
      return;
    }
    VERIF(PtOf(t.front().time, t.front().degrees_of_freedom) ==
                  points.front() &&
              PtOf(t.back().time, t.back().degrees_of_freedom) ==
                  points.back() &&
              t.t_min() == At(points.front().t) &&
              t.t_max() == At(points.back().t),
          key("ends"), context());

    // Look up.
    for (int k = 0; k < 6; ++k) {
      double const s = Chance(r_, 0.5)
                           ? points[Int(r_, 0, points.size() - 1)].t
                           : Uniform(r_, points.front().t - 1,
                                     points.back().t + 1);
      auto const lower = std::find_if(points.begin(), points.end(),
                                      [&](Pt const& p) { return p.t >= s; });
      auto const upper = std::find_if(points.begin(), points.end(),
                                      [&](Pt const& p) { return p.t > s; });
      auto const check = [&](auto const& it, auto const& expected,
                             std::string const& name) {
        if (expected == points.end()) {
          VERIF(it == t.end(), key(name), "at " << s << context());
        } else {
          VERIF(it != t.end() && PtOf(it->time, it->degrees_of_freedom) ==
                                     *expected,
                key(name), "at " << s << context());
          // The iterator can be used to iterate.
          auto jt = it;
          auto e = expected;
          for (int l = 0; l < 4 && e != points.end() && jt != t.end();
               ++l, ++jt, ++e) {
            VERIF(jt->time == At(e->t), key(name + ":++"), context());
          }
          jt = it;
          e = expected;
          for (int l = 0; l < 4 && e != points.begin() && jt != t.begin();
               ++l) {
            --jt;
            --e;
            VERIF(jt->time == At(e->t), key(name + ":--"), context());
          }
        }
      };
      check(t.lower_bound(At(s)), lower, "lower_bound");
      check(t.upper_bound(At(s)), upper, "upper_bound");
      check(t.find(At(s)),
            lower != points.end() && lower->t == s ? lower : points.end(),
            "find");
    }

    // Evaluate.
    auto const evaluate = [&](double const s) {
      Pt const actual = PtOf(At(s), t.EvaluateDegreesOfFreedom(At(s)));
      auto const q = t.EvaluatePosition(At(s));
      auto const v = t.EvaluateVelocity(At(s));
      VERIF(PtOf(At(s), Dof(q, v)) == actual, key("evaluate"),
            "at " << s << context());
      return actual;
    };
    for (int k = 0; k < 6; ++k) {
      double const s = k == 0   ? points.front().t
                       : k == 1 ? points.back().t
                                : Uniform(r_, points.front().t,
                                          points.back().t);
      Pt const actual = evaluate(s);
      auto const upper = std::find_if(points.begin(), points.end(),
                                      [&](Pt const& p) { return p.t >= s; });
      if (upper->t == s) {
        VERIF(actual == *upper, key("evaluate:point"),
              Print(actual) << " instead of " << Print(*upper) << context());
      } else {
        auto const lower = std::prev(upper);
        Pt const expected = Hermite(*lower, *upper, s);
        double const h = upper->t - lower->t;
        // The times are rounded as instants.
        double const ε = 1e-13 * Scale(*lower, *upper) *
                         (1 + (std::abs(lower->t) + std::abs(upper->t)) / h *
                                  0.01);
        Max("interpolation error",
            Distance(actual.q, expected.q) / Scale(*lower, *upper));
        VERIF(Distance(actual.q, expected.q) <= ε &&
                  Distance(actual.v, expected.v) * h <= 10 * ε,
              key("evaluate:interpolation"),
              Print(actual) << " instead of " << Print(expected) << " between "
                            << Print(*lower) << " and " << Print(*upper)
                            << context());
      }
    }

    // The points that were dropped are not far from the curve.
    {
      std::size_t k = 0;
      for (auto const& s : t.segments()) {
        auto const& ms = m.segments[k++];
        if (ms.history.size() < 2) {
          continue;
        }
        double const allowed = ms.tolerance.value_or(0) + ms.slack;
        for (std::size_t j = 0; j + 1 < ms.history.size(); ++j) {
          if (ms.history.size() > 40 && Chance(r_, 0.7)) {
            continue;
          }
          Pt const& a = ms.history[j];
          Pt const& b = ms.history[j + 1];
          // Between the points the error is not claimed to be bounded by the
          // tolerance, because the velocities of the dropped points matter.
          {
            double const time = a.t;
            Pt const actual =
                PtOf(At(time), s.EvaluateDegreesOfFreedom(At(time)));
            double const error = Distance(actual.q, a.q);
            if (allowed > 0) {
              Max("downsampling error, relative to the tolerance",
                  error / allowed);
            }
            VERIF(error <= allowed + 1e-12 * Scale(a, b) +
                               1e-14 * motion_.amplitude,
                  key("downsampling"),
                  "error of " << error << " for a tolerance of " << allowed
                              << context());
          }
        }
      }
    }
  }

  void Run() {
    int const n = static_cast<int>(Int(r_, 5, 40));
    int dropped = 0;
    for (int k = 0; k < n; ++k) {
      switch (Int(r_, 0, 21)) {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4:
        case 5:
        case 6:
          Append();
          break;
        case 7:
        case 8:
          NewSegment();
          break;
        case 9:
        case 10:
        case 11:
          SetDownsampling();
          break;
        case 12:
          ForgetAfter();
          break;
        case 13:
          ForgetBefore();
          break;
        case 14:
          if (Chance(r_, 0.1)) {
            Clear();
          }
          break;
        case 15:
          Detach();
          break;
        case 16:
          Attach();
          break;
        case 17:
          if (Chance(r_, 0.5)) {
            Delete();
          }
          break;
        case 18:
          Move();
          break;
        case 19:
          Serialize();
          break;
        default:
          Merge();
          break;
      }
      Check(t_, m_, "operation");
      dropped += 1;
    }
    Case(log_, m_.segments.size() > 1 || dropped > 5);
  }

 private:
  Rng& r_;
  Motion motion_;
  double now_;
  Trajectory t_;
  Model m_;
  std::string log_;
};

void Body() {
  auto r = MakeRng("histories");
  for (std::int64_t i = 0; i < N(300); ++i) {
    Machine(r).Run();
  }
}

}  // namespace

VERIF_MAIN(Body)
