// C11: nearest-neighbour search and disjoint sets, against exhaustive models.
#include <list>
#include <memory>
#include <numeric>
#include <optional>

#include "base/disjoint_sets.hpp"
#include "base/not_null.hpp"
#include "geometry/frame.hpp"
#include "geometry/grassmann.hpp"
#include "geometry/space.hpp"
#include "numerics/nearest_neighbour.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "verif.hpp"

using namespace principia::base::_disjoint_sets;
using namespace principia::base::_not_null;
using namespace principia::geometry::_frame;
using namespace principia::geometry::_grassmann;
using namespace principia::geometry::_space;
using namespace principia::numerics::_nearest_neighbour;
using namespace principia::quantities::_named_quantities;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace verif;

namespace {
struct Element;
}  // namespace

namespace principia::base {
template<>
class Subset<Element>::Properties final {
 public:
  explicit Properties(int const id, double const mass)
      : mass(mass), members({id}) {}

  void MergeWith(Properties& other) {
    mass += other.mass;
    members.splice(members.end(), other.members);
    other.mass = -1;
  }

  double mass;
  std::list<int> members;
};
}  // namespace principia::base

namespace {

struct Element {
  int id = 0;
  Subset<Element>::Node node;
};

}  // namespace

namespace principia::base {
template<>
not_null<Subset<Element>::Node*> Subset<Element>::Node::Get(Element& element) {
  return &element.node;
}
}  // namespace principia::base

namespace {

using World = Frame<struct WorldTag>;

template<typename Value>
struct Make;

template<>
struct Make<Displacement<World>> {
  static Displacement<World> From(double x, double y, double z) {
    return Displacement<World>({x * Metre, y * Metre, z * Metre});
  }
};

template<>
struct Make<Position<World>> {
  static Position<World> From(double x, double y, double z) {
    return World::origin + Displacement<World>({x * Metre, y * Metre,
                                                z * Metre});
  }
};

template<>
struct Make<Vector<double, World>> {
  static Vector<double, World> From(double x, double y, double z) {
    return Vector<double, World>({x, y, z});
  }
};

template<typename T>
double Magnitude(T const& displacement) {
  return displacement.Norm() / principia::quantities::_si::Unit<
                                   decltype(displacement.Norm())>;
}

struct Triple {
  double x, y, z;
};

// A generator of points of a given shape.
class Cloud {
 public:
  Cloud(Rng& r) : r_(r), shape_(Int(r, 0, 7)) {
    scale_ = std::ldexp(1.0, static_cast<int>(Int(r, -20, 30)));
    offset_ = Chance(r, 0.3) ? Random(scale_ * 100) : Triple{0, 0, 0};
    axis_ = Random(1);
    axis2_ = Random(1);
    for (int i = 0; i < 5; ++i) {
      clusters_.push_back(Random(scale_));
    }
  }

  int shape() const { return static_cast<int>(shape_); }
  double scale() const { return scale_; }

  Triple Next() {
    Triple p;
    switch (shape_) {
      case 0:  // Uniform.
        p = Random(scale_);
        break;
      case 1: {  // Clusters.
        Triple const& c = clusters_[r_() % clusters_.size()];
        Triple const d = Random(scale_ * 0.01);
        p = {c.x + d.x, c.y + d.y, c.z + d.z};
        break;
      }
      case 2: {  // Collinear.
        double const t = Uniform(r_, -scale_, scale_);
        p = {t * axis_.x, t * axis_.y, t * axis_.z};
        break;
      }
      case 3: {  // Coplanar.
        double const t = Uniform(r_, -scale_, scale_);
        double const s = Uniform(r_, -scale_, scale_);
        p = {t * axis_.x + s * axis2_.x, t * axis_.y + s * axis2_.y,
             t * axis_.z + s * axis2_.z};
        break;
      }
      case 4:  // Lattice, hence many ties and duplicates.
        p = {scale_ * static_cast<double>(Int(r_, -3, 3)),
             scale_ * static_cast<double>(Int(r_, -3, 3)),
             scale_ * static_cast<double>(Int(r_, -3, 3))};
        break;
      case 5:  // A few values.
        p = clusters_[r_() % clusters_.size()];
        break;
      case 6: {  // Geometric progression.
        double const t = scale_ * std::ldexp(1, -static_cast<int>(Int(r_, 0,
                                                                      40)));
        Triple const d = Random(t);
        p = d;
        break;
      }
      default: {  // A sphere: everything is far from the centroid.
        Triple const d = Random(1);
        double const n = std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z) + 1e-3;
        p = {scale_ * d.x / n, scale_ * d.y / n, scale_ * d.z / n};
      }
    }
    return {p.x + offset_.x, p.y + offset_.y, p.z + offset_.z};
  }

 private:
  Triple Random(double const s) {
    return {Uniform(r_, -s, s), Uniform(r_, -s, s), Uniform(r_, -s, s)};
  }

  Rng& r_;
  std::int64_t shape_;
  double scale_;
  Triple offset_;
  Triple axis_;
  Triple axis2_;
  std::vector<Triple> clusters_;
};

template<typename Value>
void NearestNeighbour(std::string const& type) {
  auto r = MakeRng("pcp" + type);
  for (std::int64_t i = 0; i < N(350); ++i) {
    Cloud cloud(r);
    std::int64_t const initial = Chance(r, 0.2) ? Int(r, 0, 2)
                                                : Int(r, 0, 120);
    std::int64_t const cell = Chance(r, 0.4) ? 1 : Int(r, 1, 12);
    std::string const description =
        Str(type, " shape ", cloud.shape(), " initial ", initial, " cell ",
            cell, " scale ", cloud.scale(), " case ", i);
    SetCase(description);

    std::vector<std::unique_ptr<Value>> owned;
    double extent = 0;
    auto next = [&]() {
      auto const t = cloud.Next();
      extent = std::max({extent, std::abs(t.x), std::abs(t.y), std::abs(t.z)});
      return Make<Value>::From(t.x, t.y, t.z);
    };
    std::vector<not_null<Value const*>> values;
    for (std::int64_t k = 0; k < initial; ++k) {
      owned.push_back(std::make_unique<Value>(next()));
      values.push_back(owned.back().get());
    }
    PrincipalComponentPartitioningTree<Value> tree(values, cell);
    std::int64_t adds = 0;
    std::int64_t queries = 0;
    std::int64_t const steps = Int(r, 10, 150);
    double const add_probability = Uniform(r, 0, 1);
    for (std::int64_t step = 0; step < steps; ++step) {
      if (Chance(r, add_probability)) {
        if (!values.empty() && Chance(r, 0.05)) {
          // A value which is already there.
          auto const v = values[r() % values.size()];
          tree.Add(v);
          values.push_back(v);
        } else {
          owned.push_back(std::make_unique<Value>(next()));
          values.push_back(owned.back().get());
          tree.Add(owned.back().get());
        }
        ++adds;
      }
      Value query = next();
      double query_extent = extent;
      if (!values.empty() && Chance(r, 0.5)) {
        // Between two values, thus near the separator planes; or on a value.
        Value const& a = *values[r() % values.size()];
        Value const& b = *values[r() % values.size()];
        query = a + (b - a) * (Chance(r, 0.3) ? 0.0 : Chance(r, 0.5)
                                   ? 0.5 : Uniform(r, -1, 2));
        query_extent *= 4;
      } else if (Chance(r, 0.1)) {
        double const far = cloud.scale() * 1000;
        query = Make<Value>::From(Uniform(r, -far, far), Uniform(r, -far, far),
                                  Uniform(r, -far, far));
        query_extent += far;
      }
      std::set<Value const*> rejected;
      double const rejection =
          Chance(r, 0.5) ? 0 : Chance(r, 0.1) ? 1 : Uniform(r, 0, 1);
      if (rejection > 0) {
        for (Value const* const v : values) {
          if (rejection == 1 || Chance(r, rejection)) {
            rejected.insert(v);
          }
        }
      }
      bool bad_argument = false;
      std::set<Value const*> all;
      for (Value const* const v : values) {
        all.insert(v);
      }
      typename PrincipalComponentPartitioningTree<Value>::Filter const filter =
          [&](Value const* const v) {
            bad_argument |= all.count(v) == 0;
            return rejected.count(v) == 0;
          };
      Value const* const found =
          rejection > 0 ? tree.FindNearestNeighbour(query, filter)
                        : tree.FindNearestNeighbour(query);
      ++queries;
      Value const* best = nullptr;
      double best_distance = std::numeric_limits<double>::infinity();
      for (Value const* const v : values) {
        if (rejected.count(v) == 0) {
          double const d = Magnitude(*v - query);
          if (d < best_distance) {
            best_distance = d;
            best = v;
          }
        }
      }
      VERIF(!bad_argument, "pcp:filter argument", "not a value of the tree");
      VERIF((found == nullptr) == (best == nullptr), "pcp:existence",
            (found == nullptr ? "nothing" : "something") << " found among "
                << values.size() << " values, " << rejected.size()
                << " rejected");
      if (found != nullptr && best != nullptr) {
        VERIF(all.count(found) == 1, "pcp:identity",
              "the result is not a value of the tree");
        VERIF(rejected.count(found) == 0, "pcp:filter",
              "the result is rejected by the filter");
        double const d = Magnitude(*found - query);
        VERIF(d <= best_distance + 1e-13 * query_extent, "pcp:nearest",
              "found a value at " << d << " instead of " << best_distance
                                  << " among " << values.size());
      }
    }
    Count("queries", queries);
    Count("additions", adds);
    Count(Str("shape ", cloud.shape()));
    Case(Str(description, " seed ", S().seed, " shard ", S().shard),
         values.size() > cell);
  }
}

void UnionFind() {
  auto r = MakeRng("union");
  for (std::int64_t i = 0; i < N(300); ++i) {
    std::int64_t const n = Int(r, 1, 120);
    std::vector<Element> elements(n);
    std::vector<int> model(n);
    SetCase(Str("union-find ", n, " elements, case ", i));
    for (int k = 0; k < n; ++k) {
      elements[k].id = k;
    }
    std::int64_t unions = 0;
    for (std::int64_t epoch = 0; epoch < Int(r, 1, 4); ++epoch) {
      std::vector<double> masses(n);
      // The partition starts over.
      for (int k = 0; k < n; ++k) {
        model[k] = k;
        masses[k] = std::ldexp(1.0, k % 50);
        auto const s =
            Subset<Element>::MakeSingleton(elements[k], k, masses[k]);
        VERIF(s == Subset<Element>::Find(elements[k]), "sets:singleton", k);
      }
      bool const chain = Chance(r, 0.3);
      std::int64_t const operations = Int(r, 0, 2 * n);
      for (std::int64_t o = 0; o < operations; ++o) {
        int const a = static_cast<int>(chain ? o % n : Int(r, 0, n - 1));
        int const b = static_cast<int>(chain ? (o + 1) % n : Int(r, 0, n - 1));
        auto const united =
            Subset<Element>::Unite(Subset<Element>::Find(elements[a]),
                                   Subset<Element>::Find(elements[b]));
        ++unions;
        int const from = model[b];
        for (int& m : model) {
          if (m == from) {
            m = model[a];
          }
        }
        VERIF(united == Subset<Element>::Find(elements[a]) &&
                  united == Subset<Element>::Find(elements[b]),
              "sets:unite", a << " " << b);
        // Random finds, for path compression.
        for (int k = 0; k < 3; ++k) {
          int const c = static_cast<int>(Int(r, 0, n - 1));
          int const d = static_cast<int>(Int(r, 0, n - 1));
          bool const same = Subset<Element>::Find(elements[c]) ==
                            Subset<Element>::Find(elements[d]);
          bool const different = Subset<Element>::Find(elements[c]) !=
                                 Subset<Element>::Find(elements[d]);
          VERIF(same == (model[c] == model[d]) && same != different,
                "sets:find", c << " " << d);
        }
      }
      for (int c = 0; c < n; ++c) {
        std::set<int> expected;
        double mass = 0;
        for (int d = 0; d < n; ++d) {
          bool const same = Subset<Element>::Find(elements[c]) ==
                            Subset<Element>::Find(elements[d]);
          VERIF(same == (model[c] == model[d]), "sets:partition",
                c << " " << d);
          if (model[c] == model[d]) {
            expected.insert(d);
            mass += masses[d];
          }
        }
        auto subset = Subset<Element>::Find(elements[c]);
        auto const& members = subset.properties().members;
        VERIF(members.size() == expected.size() &&
                  std::set<int>(members.begin(), members.end()) == expected,
              "sets:members", c << " has " << members.size()
                                << " members instead of " << expected.size());
        VERIF(std::abs(subset.mutable_properties().mass - mass) <= 1e-9 * mass,
              "sets:mass", c);
      }
    }
    Count("unions", unions);
    Case(Str("union-find ", n, " ", unions, " ", r()), unions > 0);
  }
}

void Body() {
  if (Selected("pcp")) {
    NearestNeighbour<Displacement<World>>("displacement");
    NearestNeighbour<Vector<double, World>>("vector");
    NearestNeighbour<Position<World>>("position");
  }
  if (Selected("sets")) {
    UnionFind();
  }
}

}  // namespace

VERIF_MAIN(Body)
