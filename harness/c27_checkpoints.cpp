// C27: checkpoints, protections and clients.
#include <absl/synchronization/mutex.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>
#include <vector>

#include "geometry/instant.hpp"
#include "physics/checkpointer.hpp"
#include "physics/clientele.hpp"
#include "physics/protector.hpp"
#include "quantities/si.hpp"
#include "serialization/physics.pb.h"
#include "verif.hpp"
#if defined(PRINCIPIA_VERIF_MUTEX)
#include "shim_perturb.h"
#endif

using namespace principia::base::_not_null;
using namespace principia::geometry::_instant;
using namespace principia::physics::_checkpointer;
using namespace principia::physics::_clientele;
using namespace principia::physics::_protector;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
using namespace verif;

namespace {

using Message = principia::serialization::ContinuousTrajectory;
using Checkpoint = Message::Checkpoint;

void Perturbed(Rng& r) {
#if defined(PRINCIPIA_VERIF_MUTEX)
  absl::shim::SetPerturbation(r() | 1);
#endif
}

Instant At(double const t) { return Instant() + t * Second; }

// Few values, so that they coincide.
double RandomTime(Rng& r) {
  switch (Int(r, 0, 9)) {
    case 0:
      return Uniform(r, -1e9, 1e9);
    case 1:
      return Int(r, -10, 10) * 0x1p-30;
    default:
      return Int(r, -40, 40);
  }
}

// A complete checkpoint has as many points as its id calls for.
int PointsOf(std::int64_t const id) { return 1 + id % 5; }

void Fill(Checkpoint& c, std::int64_t const id, bool const slow) {
  c.set_is_unstable(id % 2 == 0);
  c.set_degree(id);
  for (int i = 0; i < PointsOf(id); ++i) {
    if (slow) std::this_thread::yield();
    auto* const p = c.add_last_point();
    At(id * 100 + i).WriteToMessage(p->mutable_instant());
    p->mutable_degrees_of_freedom();
  }
  (1.0 * principia::quantities::_si::Metre * static_cast<double>(id))
      .WriteToMessage(c.mutable_adjusted_tolerance());
  c.set_degree_age(3 * id + 1);
}

// The id of a checkpoint, or a failure.
std::int64_t IdOf(Checkpoint const& c, char const* const where) {
  std::int64_t const id = c.degree();
  bool ok = c.has_degree() && c.has_degree_age() &&
            c.degree_age() == 3 * id + 1 &&
            c.is_unstable() == (id % 2 == 0) &&
            c.last_point_size() == PointsOf(id) &&
            c.adjusted_tolerance().magnitude() == id;
  for (int i = 0; ok && i < PointsOf(id); ++i) {
    ok = Instant::ReadFromMessage(c.last_point(i).instant()) ==
         At(id * 100 + i);
  }
  VERIF(ok, Str("checkpoint:incomplete:", where), c.ShortDebugString());
  return id;
}

void Checkpoints() {
  Rng r = MakeRng("checkpoints");
  for (std::int64_t n = 0; n < N(400); ++n) {
    SetCase(Str("checkpoints #", n));
    std::map<double, std::int64_t> model;
    std::int64_t next_id = 1;
    std::int64_t last_written = 0;
    std::vector<std::int64_t> read;
    std::optional<absl::Status> read_status;
    std::int64_t writes = 0;
    using C = Checkpointer<Message>;
    C* self = nullptr;
    auto const writer = [&](not_null<Checkpoint*> const c) {
      // Not run under a lock.
      if (self != nullptr && Chance(r, 0.2)) {
        self->size();
        self->oldest_checkpoint();
      }
      VERIF(c->ByteSizeLong() == 0, "checkpoint:not empty",
            c->ShortDebugString());
      last_written = next_id++;
      ++writes;
      Fill(*c, last_written, false);
    };
    auto const reader = [&](Checkpoint const& c) {
      if (self != nullptr && Chance(r, 0.2)) {
        self->size();
      }
      read.push_back(IdOf(c, "reader"));
      return read_status.value_or(absl::OkStatus());
    };
    std::unique_ptr<C> c = std::make_unique<C>(writer, reader);
    self = c.get();
    std::string history;
    int const steps = Int(r, 1, 40);
    for (int i = 0; i < steps; ++i) {
      switch (Int(r, 0, 5)) {
        case 0:
        case 1: {
          double const t = RandomTime(r);
          if (model.contains(t)) break;
          c->WriteToCheckpoint(At(t));
          model[t] = last_written;
          history += "w";
          break;
        }
        case 2: {
          double const newest =
              model.empty() ? 0 : model.rbegin()->first;
          double const t = Chance(r, 0.5) ? newest + Int(r, 0, 5)
                                          : RandomTime(r);
          double const max = Int(r, 0, 5);
          bool const expected = model.empty() || t - newest > max;
          if (expected && model.contains(t)) break;
          std::int64_t const before = writes;
          bool const actual = c->WriteToCheckpointIfNeeded(At(t), max * Second);
          VERIF(actual == expected, "checkpoint:if needed",
                Str(t, " after ", newest, " max ", max));
          VERIF(writes == before + actual, "checkpoint:writes", writes);
          if (actual) {
            model[t] = last_written;
          }
          history += "n";
          break;
        }
        case 3: {
          // Write and read.
          Message m;
          c->WriteToMessage(m.mutable_checkpoint());
          VERIF(m.checkpoint_size() == static_cast<int>(model.size()),
                "checkpoint:written size", m.checkpoint_size());
          auto it = model.begin();
          for (auto const& cp : m.checkpoint()) {
            VERIF(it != model.end() &&
                      Instant::ReadFromMessage(cp.time()) == At(it->first) &&
                      IdOf(cp, "message") == it->second,
                  "checkpoint:written", "");
            ++it;
          }
          bool const rewrite = Chance(r, 0.5);
          int const shift = rewrite ? 1000 : 0;
          // Asynchronously, in several threads.
          auto const rewriter = [&](Checkpoint const& cp) {
            Checkpoint result;
            Fill(result, IdOf(cp, "rewriter") + 1000, true);
            *result.mutable_time() = cp.time();
            return result;
          };
          if (Chance(r, 0.5)) {
            // The order is unspecified.
            for (int k = 1; k < m.checkpoint_size(); ++k) {
              m.mutable_checkpoint()->SwapElements(k, Int(r, 0, k));
            }
          }
          std::string const s = m.SerializePartialAsString();
          Message m2;
          HARNESS_CHECK(m2.ParsePartialFromString(s));
          self = nullptr;
          c = C::ReadFromMessage(
              writer, reader,
              rewrite ? C::Rewriter(rewriter) : C::Rewriter(), m2.checkpoint());
          self = c.get();
          for (auto& [_, id] : model) id += shift;
          history += rewrite ? "R" : "r";
          break;
        }
        case 4: {
          c->set_writer([&, writer](not_null<Checkpoint*> const cp) {
            next_id += 10000;
            writer(cp);
          });
          history += "s";
          break;
        }
        default:
          break;
      }
      // Look-ups.
      VERIF(c->size() == static_cast<std::int64_t>(model.size()),
            "checkpoint:size", c->size());
      VERIF(c->oldest_checkpoint() ==
                    (model.empty() ? InfiniteFuture : At(model.begin()->first)) &&
                c->newest_checkpoint() ==
                    (model.empty() ? InfinitePast : At(model.rbegin()->first)),
            "checkpoint:oldest or newest", history);
      double t = RandomTime(r);
      if (Chance(r, 0.3) && !model.empty()) {
        t = std::nextafter(
            std::next(model.begin(), Int(r, 0, model.size() - 1))->first,
            Chance(r, 0.5) ? 1e300 : -1e300);
      }
      auto const lb = model.lower_bound(t);
      auto const ub = model.upper_bound(t);
      VERIF(c->checkpoint_at_or_after(At(t)) ==
                (lb == model.end() ? InfiniteFuture : At(lb->first)),
            "checkpoint:at or after", t);
      VERIF(c->checkpoint_at_or_before(At(t)) ==
                (ub == model.begin() ? InfinitePast
                                     : At(std::prev(ub)->first)),
            "checkpoint:at or before", t);
      double const t2 = RandomTime(r);
      absl::btree_set<Instant> all, before, between;
      for (auto const& [time, _] : model) {
        all.insert(At(time));
        if (time <= t) before.insert(At(time));
        if (time >= t && time <= t2) between.insert(At(time));
      }
      VERIF(c->all_checkpoints() == all, "checkpoint:all", history);
      VERIF(c->all_checkpoints_at_or_before(At(t)) == before,
            "checkpoint:all before", t);
      VERIF(c->all_checkpoints_between(At(t), At(t2)) == between,
            "checkpoint:all between", Str(t, " ", t2));
      // Reads.
      auto const expect = [&](absl::Status const& status,
                              std::optional<std::int64_t> const& id,
                              char const* const what) {
        if (id.has_value()) {
          VERIF(read == std::vector<std::int64_t>{*id} &&
                    status == read_status.value_or(absl::OkStatus()),
                Str("read:", what), Str(read.size(), " ", status.message()));
        } else {
          VERIF(read.empty() && absl::IsNotFound(status),
                Str("read:none:", what), Str(read.size()));
        }
        read.clear();
      };
      if (Chance(r, 0.2)) {
        read_status = absl::CancelledError("verif");
      } else {
        read_status.reset();
      }
      std::optional<std::int64_t> none;
      expect(c->ReadFromOldestCheckpoint(),
             model.empty() ? none : model.begin()->second, "oldest");
      expect(c->ReadFromNewestCheckpoint(),
             model.empty() ? none : model.rbegin()->second, "newest");
      expect(c->ReadFromCheckpointAtOrBefore(At(t)),
             ub == model.begin() ? none : std::prev(ub)->second, "before");
      auto const at = model.find(t2);
      expect(c->ReadFromCheckpointAt(At(t2)),
             at == model.end() ? none : at->second, "at");
      expect(c->ReadFromCheckpointAt(At(t2), reader),
             at == model.end() ? none : at->second, "at with reader");
      Count("look-ups", 13);
    }
    Case(Str("checkpoints ", n, " ", history), model.size() > 1);
  }
}

// One thread creates checkpoints while others look at them: they are complete.
void ConcurrentCheckpoints() {
  Rng r = MakeRng("concurrent checkpoints");
  for (std::int64_t n = 0; n < N(40); ++n) {
    SetCase(Str("concurrent checkpoints #", n));
    Perturbed(r);
    using C = Checkpointer<Message>;
    std::atomic<std::int64_t> next_id = 1;
    C c([&](not_null<Checkpoint*> const cp) { Fill(*cp, next_id++, true); },
        [&](Checkpoint const& cp) {
          IdOf(cp, "concurrent reader");
          return absl::OkStatus();
        });
    std::atomic<int> running = 0;
    std::atomic<std::int64_t> created = 0;
    std::vector<std::thread> threads;
    int const writers = Int(r, 1, 3);
    double const gap = Int(r, 0, 3);
    for (int k = 0; k < writers; ++k) {
      ++running;
      std::uint64_t const seed = r();
      threads.emplace_back([&, k, seed] {
        Rng r(seed);
        for (int i = 0; i < 20; ++i) {
          if (Chance(r, 0.5)) {
            // Its own times.
            c.WriteToCheckpoint(At(i + k * 0x1p-10 + 0x1p-5));
            ++created;
          } else {
            created += c.WriteToCheckpointIfNeeded(At(i), gap * Second);
          }
        }
        --running;
      });
    }
    int const readers = Int(r, 1, 3);
    std::atomic<std::int64_t> reads = 0;
    for (int k = 0; k < readers; ++k) {
      std::uint64_t const seed = r();
      threads.emplace_back([&, seed] {
        Rng r(seed);
        std::size_t size = 0;
        do {
          Instant const t = At(Uniform(r, -1, 21));
          switch (Int(r, 0, 4)) {
            case 0:
              c.ReadFromNewestCheckpoint().IgnoreError();
              break;
            case 1:
              c.ReadFromCheckpointAtOrBefore(t).IgnoreError();
              break;
            case 2: {
              Message m;
              c.WriteToMessage(m.mutable_checkpoint());
              for (auto const& cp : m.checkpoint()) {
                IdOf(cp, "concurrent message");
              }
              break;
            }
            case 3:
              for (Instant const& t : c.all_checkpoints()) {
                VERIF(c.ReadFromCheckpointAt(t).ok(), "checkpoint:lost", "");
              }
              break;
            default: {
              std::size_t const s = c.all_checkpoints().size();
              VERIF(s >= size && c.size() >= static_cast<std::int64_t>(s),
                    "checkpoint:shrunk", Str(s, " ", size));
              size = s;
              break;
            }
          }
          ++reads;
        } while (running > 0);
      });
    }
    for (auto& t : threads) t.join();
    VERIF(c.size() == created, "checkpoint:concurrent size",
          Str(c.size(), " ", created.load()));
    Count("concurrent reads", reads);
    Case(Str("concurrent checkpoints ", n, " ", writers, " ", readers));
  }
}

void Protections() {
  Rng r = MakeRng("protections");
  for (std::int64_t n = 0; n < N(400); ++n) {
    SetCase(Str("protections #", n));
    Protector p;
    std::multiset<double> starts;
    std::multimap<double, int> pending;
    std::vector<int> ran;
    std::vector<int> expected;
    int next = 0;
    int reentrant = 0;
    std::string history;
    // Runs from within callbacks too.
    std::function<void(int)> const run = [&](int const depth) {
      double const t = RandomTime(r);
      int const id = next++;
      bool const is_protected = !starts.empty() && *starts.begin() < t;
      if (is_protected) {
        pending.emplace(t, id);
      } else {
        expected.push_back(id);
      }
      std::size_t const before = ran.size();
      bool const immediate =
          p.RunWhenUnprotected(At(t), [&ran, &run, &reentrant, &r, id, depth] {
            ran.push_back(id);
            if (depth < 2 && Chance(r, 0.2)) {
              ++reentrant;
              run(depth + 1);
            }
          });
      VERIF(immediate == !is_protected, "protector:immediate", t);
      VERIF(is_protected ? ran.size() == before
                         : ran.size() > before && ran[before] == id,
            "protector:ran", t);
    };
    for (int i = 0; i < Int(r, 5, 60); ++i) {
      switch (Int(r, 0, 3)) {
        case 0: {
          double const t = RandomTime(r);
          p.Protect(At(t));
          starts.insert(t);
          history += "p";
          break;
        }
        case 1: {
          if (starts.empty()) break;
          auto const it = std::next(starts.begin(),
                                    Chance(r, 0.5)
                                        ? 0
                                        : Int(r, 0, starts.size() - 1));
          double const t = *it;
          starts.erase(it);
          // In this order, possibly with others run by the callbacks.
          std::vector<int> released;
          for (auto it = pending.begin(); it != pending.end();) {
            if (starts.empty() || it->first <= *starts.begin()) {
              released.push_back(it->second);
              it = pending.erase(it);
            } else {
              break;
            }
          }
          std::size_t const before = ran.size();
          p.Unprotect(At(t));
          std::vector<int> const now(ran.begin() + before, ran.end());
          std::size_t k = 0;
          for (int const id : now) {
            if (k < released.size() && released[k] == id) ++k;
          }
          VERIF(k == released.size(), "protector:released",
                Str(released.size(), " ", now.size()));
          expected.insert(expected.end(), released.begin(), released.end());
          history += "u";
          break;
        }
        default:
          run(0);
          history += "r";
          break;
      }
      auto a = ran;
      auto b = expected;
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      VERIF(a == b, "protector:exactly once", Str(a.size(), " ", b.size()));
    }
    Count("callbacks", ran.size());
    Count("callbacks run by callbacks", reentrant);
    Case(Str("protections ", n, " ", history), ran.size() > 2);
  }
}

void ConcurrentProtections() {
  Rng r = MakeRng("concurrent protections");
  for (std::int64_t n = 0; n < N(60); ++n) {
    SetCase(Str("concurrent protections #", n));
    Perturbed(r);
    Protector p;
    struct Item {
      std::atomic<int> runs = 0;
      std::atomic<bool> may_run = true;
      bool immediate = false;
      // Checked by the sanitizer.
      int plain = 0;
    };
    int const clients = Int(r, 2, 5);
    int const each = 25;
    std::vector<std::vector<Item>> items(clients);
    for (auto& v : items) v = std::vector<Item>(each);
    std::vector<std::thread> threads;
    for (int k = 0; k < clients; ++k) {
      std::uint64_t const seed = r();
      threads.emplace_back([&, k, seed] {
        Rng r(seed);
        std::multimap<double, std::vector<Item*>> mine;
        for (auto& item : items[k]) {
          auto const unprotect = [&] {
            auto const it =
                std::next(mine.begin(), Int(r, 0, mine.size() - 1));
            // Those may still be protected by another.
            auto const held = it->second;
            double const start = it->first;
            mine.erase(it);
            for (auto* i : held) {
              bool still = false;
              for (auto const& [_, others] : mine) {
                still = still || std::find(others.begin(), others.end(), i) !=
                                     others.end();
              }
              if (!still) i->may_run = true;
            }
            p.Unprotect(At(start));
          };
          if (Chance(r, 0.5)) {
            double const start = RandomTime(r);
            p.Protect(At(start));
            mine.emplace(start, std::vector<Item*>());
          }
          double const t = RandomTime(r);
          item.plain = k + 1;
          bool must_wait = false;
          for (auto& [start, held] : mine) {
            if (start < t) {
              held.push_back(&item);
              must_wait = true;
            }
          }
          item.may_run = !must_wait;
          item.immediate = p.RunWhenUnprotected(At(t), [&item, k] {
            VERIF(item.may_run, "protector:too early", "");
            VERIF(item.plain == k + 1, "protector:plain", item.plain);
            ++item.runs;
          });
          VERIF(!(item.immediate && must_wait), "protector:concurrent", "");
          VERIF(!item.immediate || item.runs == 1, "protector:not run", "");
          if (!mine.empty() && Chance(r, 0.4)) unprotect();
        }
        while (!mine.empty()) {
          auto const it = mine.begin();
          auto const held = it->second;
          double const start = it->first;
          mine.erase(it);
          for (auto* i : held) {
            bool still = false;
            for (auto const& [_, others] : mine) {
              still = still || std::find(others.begin(), others.end(), i) !=
                                   others.end();
            }
            if (!still) i->may_run = true;
          }
          p.Unprotect(At(start));
        }
      });
    }
    for (auto& t : threads) t.join();
    int delayed = 0;
    for (auto const& v : items) {
      for (auto const& item : v) {
        VERIF(item.runs == 1, "protector:concurrent runs", item.runs.load());
        delayed += !item.immediate;
      }
    }
    Count("concurrent callbacks delayed", delayed);
    Case(Str("concurrent protections ", n, " ", clients), delayed > 0);
  }
}

void Clienteles() {
  Rng r = MakeRng("clienteles");
  for (std::int64_t n = 0; n < N(200); ++n) {
    SetCase(Str("clientele #", n));
    Clientele<double> clientele(1e9);
    std::multiset<double> model;
    std::vector<std::pair<double, std::unique_ptr<Client<double>>>> clients;
    std::string history;
    for (int i = 0; i < 60; ++i) {
      if (Chance(r, 0.55) || clients.empty()) {
        double const key = RandomTime(r);
        if (Chance(r, 0.5)) {
          clients.emplace_back(
              key, std::make_unique<Client<double>>(key, clientele));
        } else {
          clientele.Join(key);
          clients.emplace_back(key, nullptr);
        }
        model.insert(key);
        history += "j";
      } else {
        std::size_t const k = Int(r, 0, clients.size() - 1);
        model.erase(model.find(clients[k].first));
        if (clients[k].second == nullptr) {
          clientele.Leave(clients[k].first);
        }
        clients.erase(clients.begin() + k);
        history += "l";
      }
      VERIF(clientele.first() == (model.empty() ? 1e9 : *model.begin()),
            "clientele:first", clientele.first());
    }
    Case(Str("clientele ", n, " ", history));
    for (auto const& [key, client] : clients) {
      if (client == nullptr) clientele.Leave(key);
    }
  }
  for (std::int64_t n = 0; n < N(40); ++n) {
    SetCase(Str("concurrent clientele #", n));
    Perturbed(r);
    Clientele<double> clientele(1e9);
    std::vector<std::thread> threads;
    for (int k = 0; k < 4; ++k) {
      std::uint64_t const seed = r();
      threads.emplace_back([&, seed] {
        Rng r(seed);
        for (int i = 0; i < 60; ++i) {
          double const key = Int(r, 0, 1000);
          Client<double> const client(key, clientele);
          double const first = clientele.first();
          VERIF(first <= key && first >= 0 && first == std::floor(first),
                "clientele:concurrent", Str(first, " ", key));
        }
      });
    }
    for (auto& t : threads) t.join();
    VERIF(clientele.first() == 1e9, "clientele:empty", clientele.first());
    Case(Str("concurrent clientele ", n));
  }
}

void Run() {
  if (Selected("sequential")) {
    Checkpoints();
    Protections();
  }
  if (Selected("threads")) {
    ConcurrentCheckpoints();
    ConcurrentProtections();
    Clienteles();
  }
}

}  // namespace

VERIF_MAIN(Run)
