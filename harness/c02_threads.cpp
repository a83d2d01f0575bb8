// C02: the threading primitives execute what they are given, once, on the
// terms that they advertise.
#include <chrono>
#include <filesystem>
#include <future>
#include <thread>

#include <sys/syscall.h>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "base/bundle.hpp"
#include "base/push_pull_callback.hpp"
#include "base/recurring_thread.hpp"
#include "base/stoppable_thread.hpp"
#include "base/thread_pool.hpp"
#include "verif.hpp"
#if defined(PRINCIPIA_VERIF_MUTEX)
#include "shim_perturb.h"
#endif

using namespace principia::base::_bundle;
using namespace principia::base::_push_pull_callback;
using namespace principia::base::_recurring_thread;
using namespace principia::base::_stoppable_thread;
using namespace principia::base::_thread_pool;
using namespace std::chrono_literals;
using namespace verif;

namespace {

using Clock = std::chrono::steady_clock;

void Perturbed(Rng& r) {
#if defined(PRINCIPIA_VERIF_MUTEX)
  absl::shim::SetPerturbation(r() | 1);
#endif
}

void Pause(Rng& r) {
  switch (Int(r, 0, 12)) {
    case 0:
      std::this_thread::sleep_for(std::chrono::microseconds(Int(r, 1, 200)));
      break;
    case 1:
    case 2:
      std::this_thread::yield();
      break;
    default:
      break;
  }
}

// A gate on which tasks block.
class Gate {
 public:
  void Open() {
    std::lock_guard<std::mutex> l(m_);
    open_ = true;
    c_.notify_all();
  }
  void Wait() {
    std::unique_lock<std::mutex> l(m_);
    c_.wait(l, [this] { return open_; });
  }

 private:
  std::mutex m_;
  std::condition_variable c_;
  bool open_ = false;
};

// Several clients, unique task ids.  Each task runs at most once; exactly once
// if its future was fulfilled; never if its future was broken; its value is the
// one in the future; what it wrote is visible to whoever waited; and there are
// never more tasks running than threads.
void PoolHistory() {
  Rng r = MakeRng("pool");
  std::int64_t const n = N(120);
  for (std::int64_t i = 0; i < n; ++i) {
    int const threads = Int(r, 1, 5);
    int const clients = Int(r, 1, 4);
    int const tasks = Int(r, 1, 40);
    bool const abandon = Chance(r, 0.3);
    SetCase(Str("pool #", i, " threads=", threads, " clients=", clients,
                " tasks=", tasks, " abandon=", abandon));
    Perturbed(r);
    struct Task {
      std::atomic<int> runs = 0;
      std::int64_t plain = 0;  // Not atomic: written by the task.
      std::future<std::int64_t> future;
      bool added = false;
      bool tried = false;
    };
    std::vector<std::vector<Task>> all(clients);
    for (auto& v : all) v = std::vector<Task>(tasks);
    std::atomic<int> running = 0;
    std::atomic<int> most_running = 0;
    {
      auto pool = std::make_unique<ThreadPool<std::int64_t>>(threads);
      std::vector<std::thread> client_threads;
      for (int c = 0; c < clients; ++c) {
        client_threads.emplace_back([&, c, seed = r()] {
          Rng cr(seed);
          for (int t = 0; t < tasks; ++t) {
            Task& task = all[c][t];
            std::int64_t const id = c * 1000 + t;
            auto const f = [&, id, pause = cr()]() -> std::int64_t {
              Rng tr(pause);
              int const now = ++running;
              for (int m = most_running; now > m;) {
                if (most_running.compare_exchange_weak(m, now)) break;
              }
              Pause(tr);
              ++task.runs;
              task.plain = id * 7 + 1;
              --running;
              return id * 3 + 5;
            };
            if (Chance(cr, 0.3)) {
              task.tried = true;
              auto future = pool->TryAdd(f);
              if (future.has_value()) {
                task.future = std::move(*future);
                task.added = true;
              } else {
                Count("try-add-refused");
                if (Chance(cr, 0.5)) {
                  pool->WaitUntilIdleFor(absl::Microseconds(Int(cr, 0, 300)));
                }
              }
            } else {
              task.future = pool->Add(f);
              task.added = true;
            }
            Pause(cr);
            if (Chance(cr, 0.1) && task.added) {
              std::int64_t const v = task.future.get();
              VERIF(v == id * 3 + 5, "pool-value", "future of " << id << " gave "
                                                                << v);
              VERIF(task.plain == id * 7 + 1, "pool-visibility",
                    "effects not visible");
              VERIF(task.runs == 1, "pool-runs", task.runs << " runs");
            }
          }
        });
      }
      for (auto& t : client_threads) t.join();
      if (!abandon) {
        for (auto& v : all) {
          for (auto& t : v) {
            if (t.added && t.future.valid()) t.future.wait();
          }
        }
      }
      pool.reset();
    }
    // No task runs beyond the destruction of the pool.
    VERIF(running == 0, "pool-outlived", running << " tasks still running");
    std::int64_t done = 0;
    std::int64_t broken = 0;
    for (int c = 0; c < clients; ++c) {
      for (int t = 0; t < tasks; ++t) {
        Task& task = all[c][t];
        std::int64_t const id = c * 1000 + t;
        if (!task.added) {
          VERIF(task.runs == 0, "pool-refused-ran",
                "a refused task ran " << task.runs << " times");
          continue;
        }
        if (task.future.valid()) {
          VERIF(task.future.wait_for(0s) == std::future_status::ready,
                "pool-future-pending", "future pending after destruction");
          try {
            std::int64_t const v = task.future.get();
            VERIF(v == id * 3 + 5, "pool-value", "future of " << id << " gave "
                                                              << v);
            VERIF(task.runs == 1, "pool-runs", task.runs << " runs");
            ++done;
          } catch (std::future_error const&) {
            ++broken;
            VERIF(abandon, "pool-dropped", "task dropped although awaited");
            VERIF(task.runs == 0, "pool-broken-ran", task.runs << " runs");
          }
        } else {
          ++done;
          VERIF(task.runs == 1, "pool-runs", task.runs << " runs");
        }
      }
    }
    VERIF(most_running <= threads, "pool-too-many-threads",
          most_running << " tasks at once, " << threads << " threads");
    Count("pool-tasks-done", done);
    Count("pool-tasks-broken", broken);
    Case(Str(current_case, " done=", done, " peak=", most_running.load()),
         clients > 1);
  }
}

// With a known number of threads blocked: `TryAdd` succeeds iff a thread is
// idle, and what it added runs without waiting for anything else.
void PoolTryAdd() {
  Rng r = MakeRng("tryadd");
  std::int64_t const n = N(60);
  for (std::int64_t i = 0; i < n; ++i) {
    int const threads = Int(r, 1, 6);
    int const blocked = Int(r, 0, threads);
    SetCase(Str("tryadd #", i, " threads=", threads, " blocked=", blocked));
    Perturbed(r);
    Gate gate;
    std::atomic<int> started = 0;
    ThreadPool<void> pool(threads);
    std::vector<std::future<void>> futures;
    int successes = 0;
    for (int k = 0; k < blocked; ++k) {
      futures.push_back(pool.Add([&] {
        ++started;
        gate.Wait();
      }));
    }
    for (; started < blocked;) std::this_thread::yield();
    // Now exactly `blocked` threads are busy, and nothing is queued.
    std::vector<std::future<void>> tried;
    std::atomic<int> tried_started = 0;
    for (int k = 0; k < threads + 2; ++k) {
      bool const expected = blocked + successes < threads;
      bool const idle = pool.WaitUntilIdleFor(absl::Microseconds(
          expected ? 10'000'000 : Int(r, 0, 500)));
      VERIF(idle == expected, "pool-idle",
            "WaitUntilIdleFor says " << idle << ", " << blocked + successes
                                     << " of " << threads << " busy");
      auto f = pool.TryAdd([&] {
        ++tried_started;
        gate.Wait();
      });
      VERIF(f.has_value() == expected, "pool-try-add",
            "TryAdd " << (f.has_value() ? "accepted" : "refused") << " with "
                      << blocked + successes << " of " << threads << " busy");
      if (f.has_value()) {
        ++successes;
        tried.push_back(std::move(*f));
        // Runs while all the others are blocked; otherwise, a hang.
        if (expected) {
          while (tried_started < successes) std::this_thread::yield();
        }
      }
    }
    gate.Open();
    for (auto& f : futures) f.get();
    for (auto& f : tried) f.get();
    // All idle again, eventually.
    for (;;) {
      if (pool.WaitUntilIdleFor(absl::Milliseconds(50))) break;
    }
    Case(Str("tryadd ", threads, " ", blocked, " ", i));
    Count("pool-try-adds", threads + 2);
  }
}

// Several threads call `TryAdd` at once: exactly as many calls are accepted as
// there are idle threads, and all of them start.
void PoolTryAddRace() {
  Rng r = MakeRng("tryadd race");
  std::int64_t const n = N(150);
  for (std::int64_t i = 0; i < n; ++i) {
    int const threads = Int(r, 1, 5);
    int const blocked = Int(r, 0, threads - 1);
    int const callers = Int(r, 2, 8);
    bool const spin = Chance(r, 0.7);
    SetCase(Str("tryadd race #", i, " threads=", threads, " blocked=", blocked,
                " callers=", callers));
    if (spin) {
#if defined(PRINCIPIA_VERIF_MUTEX)
      absl::shim::SetPerturbation(0);
#endif
    } else {
      Perturbed(r);
    }
    Gate gate;
    std::atomic<int> started = 0;
    ThreadPool<void> pool(threads);
    std::vector<std::future<void>> futures;
    for (int k = 0; k < blocked; ++k) {
      futures.push_back(pool.Add([&] {
        ++started;
        gate.Wait();
      }));
    }
    while (started < blocked) std::this_thread::yield();
    for (int round = 0; round < 1; ++round) {
      std::atomic<int> ready = 0;
      std::atomic<int> accepted = 0;
      std::vector<std::optional<std::future<void>>> tried(callers);
      std::vector<std::thread> client_threads;
      for (int k = 0; k < callers; ++k) {
        client_threads.emplace_back([&, k] {
          ++ready;
          while (ready < callers) {
            if (!spin) std::this_thread::yield();
          }
          tried[k] = pool.TryAdd([&] {
            ++started;
            gate.Wait();
          });
          if (tried[k].has_value()) {
            ++accepted;
          }
        });
      }
      for (auto& t : client_threads) t.join();
      int const expected = std::min(callers, threads - blocked);
      VERIF(accepted == expected, "pool-try-add-race",
            accepted << " calls accepted, " << expected << " idle threads");
      // All those that were accepted run while the others are blocked.
      if (accepted == expected) {
        while (started < blocked + expected) std::this_thread::yield();
      }
      gate.Open();
      for (auto& f : tried) {
        if (f.has_value()) f->get();
      }
    }
    for (auto& f : futures) f.get();
    Case(Str("tryadd race ", threads, " ", blocked, " ", callers, " ", i));
    Count("pool-concurrent-try-adds", callers);
  }
}

pid_t Tid() { return static_cast<pid_t>(::syscall(SYS_gettid)); }

void WaitForThreadExit(pid_t const tid) {
  std::string const path = Str("/proc/self/task/", tid);
  while (std::filesystem::exists(path)) {
    std::this_thread::sleep_for(100us);
  }
}

void Bundles() {
  Rng r = MakeRng("bundle");
  std::int64_t const n = N(150);
  for (std::int64_t i = 0; i < n; ++i) {
    int const tasks = Int(r, 0, 8);
    int const join = Int(r, 0, 2);
    SetCase(Str("bundle #", i, " tasks=", tasks, " join=", join));
    Perturbed(r);
    struct Task {
      std::atomic<int> runs = 0;
      std::int64_t plain = 0;
      absl::Status status;
      bool pause = false;
    };
    std::vector<Task> all(tasks);
    std::set<std::string> errors;
    std::string only_error;
    for (int t = 0; t < tasks; ++t) {
      if (Chance(r, 0.25)) {
        all[t].status = absl::Status(
            static_cast<absl::StatusCode>(Int(r, 1, 16)), Str("error ", t));
        errors.insert(all[t].status.ToString());
      }
      all[t].pause = Chance(r, 0.5);
    }
    Bundle bundle;
    for (int t = 0; t < tasks; ++t) {
      bundle.Add([&, t, seed = r()]() -> absl::Status {
        Rng tr(seed);
        if (all[t].pause) Pause(tr);
        ++all[t].runs;
        all[t].plain = t + 1;
        return all[t].status;
      });
      Pause(r);
    }
    absl::Status status;
    switch (join) {
      case 0: status = bundle.Join(); break;
      case 1: status = bundle.JoinWithin(std::chrono::minutes(10)); break;
      case 2:
        status = bundle.JoinBefore(std::chrono::system_clock::now() +
                                   std::chrono::minutes(10));
        break;
    }
    for (int t = 0; t < tasks; ++t) {
      VERIF(all[t].runs == 1, "bundle-runs", all[t].runs << " runs at join");
      VERIF(all[t].plain == t + 1, "bundle-visibility", "effects not visible");
    }
    if (errors.empty()) {
      VERIF(status.ok(), "bundle-status", "got " << status.ToString());
    } else {
      VERIF(errors.contains(status.ToString()), "bundle-status",
            "got " << status.ToString() << ", not one of the "
                   << errors.size() << " errors");
    }
    Case(Str("bundle ", i, " ", tasks, " ", errors.size()), tasks > 1);
    Count("bundle-tasks", tasks);
  }
  // The first error wins: the task with the second one waits until the thread
  // that produced the first one has gone.
  for (std::int64_t i = 0; i < N(25); ++i) {
    SetCase(Str("bundle-first-error #", i));
    int const late = Int(r, 1, 3);
    Bundle bundle;
    std::atomic<pid_t> first = 0;
    int const position = Int(r, 0, late);
    for (int t = 0; t <= late; ++t) {
      if (t == position) {
        bundle.Add([&]() -> absl::Status {
          first = Tid();
          return absl::AbortedError("first");
        });
      } else {
        bundle.Add([&, t]() -> absl::Status {
          while (first == 0) std::this_thread::yield();
          WaitForThreadExit(first);
          return t % 2 == 0 ? absl::InternalError("late") : absl::OkStatus();
        });
      }
    }
    absl::Status const status = bundle.Join();
    VERIF(status == absl::AbortedError("first"), "bundle-first-error",
          "got " << status.ToString());
    Case(Str("first-error ", i, " ", late, " ", position));
  }
  // A deadline that cannot be met.
  for (std::int64_t i = 0; i < N(4); ++i) {
    bool const before = i % 2 == 0;
    bool ok = false;
    for (int attempt = 0; attempt < 4 && !ok; ++attempt) {
      Bundle bundle;
      auto const release = Clock::now() + 200ms * (1 << attempt);
      std::atomic<int> runs = 0;
      for (int t = 0; t < 3; ++t) {
        bundle.Add([&]() -> absl::Status {
          std::this_thread::sleep_until(release);
          ++runs;
          return absl::OkStatus();
        });
      }
      absl::Status const status =
          before ? bundle.JoinBefore(std::chrono::system_clock::now() + 5ms)
                 : bundle.JoinWithin(5ms);
      VERIF(runs == 3, "bundle-runs", runs << " runs at join");
      ok = status.code() == absl::StatusCode::kDeadlineExceeded;
    }
    VERIF(ok, "bundle-deadline", "no deadline exceeded");
    Case(Str("deadline ", i, before));
  }
}

// The inputs are unique, so that each execution and each output identifies the
// `Put` from which it comes.
void Recurring() {
  Rng r = MakeRng("recurring");
  std::int64_t const n = N(40);
  for (std::int64_t i = 0; i < n; ++i) {
    int const puts = Int(r, 1, 30);
    int const period_ms = Int(r, 0, 2);
    SetCase(Str("recurring #", i, " puts=", puts, " period=", period_ms));
    Perturbed(r);
    std::atomic<int> concurrent = 0;
    std::atomic<bool> stopped = true;
    std::mutex lock;
    std::vector<std::int64_t> executed;
    std::vector<Clock::time_point> executed_at;
    std::vector<std::int64_t> obtained;
    std::set<std::int64_t> failing;
    for (int k = 1; k <= puts; ++k) {
      if (Chance(r, 0.2)) failing.insert(k);
    }
    failing.erase(puts);
    std::atomic<std::int64_t> last_put = 0;
    Rng ar(r());
    RecurringThread<std::int64_t, std::int64_t> thread(
        [&](std::int64_t const x) -> absl::StatusOr<std::int64_t> {
          VERIF(++concurrent == 1, "recurring-concurrent",
                "the action runs concurrently with itself");
          VERIF(!stopped, "recurring-after-stop", "action while stopped");
          VERIF(x <= last_put + 1, "recurring-invented", "input " << x);
          {
            std::lock_guard<std::mutex> l(lock);
            executed.push_back(x);
            executed_at.push_back(Clock::now());
          }
          Pause(ar);
          --concurrent;
          if (failing.contains(x)) return absl::CancelledError("fail");
          return x * 11 + 3;
        },
        std::chrono::milliseconds(period_ms));
    if (Chance(r, 0.3)) {
      // Not started: nothing runs.
      thread.Put(0);
      std::this_thread::sleep_for(1ms);
      VERIF(!thread.Get().has_value(), "recurring-unstarted", "output");
    }
    stopped = false;
    auto const start = Clock::now();
    std::size_t base = 0;
    thread.Start();
    int stops = 0;
    for (int k = 1; k <= puts; ++k) {
      thread.Put(k);
      last_put = k;
      Pause(r);
      if (Chance(r, 0.3)) {
        if (auto const o = thread.Get(); o.has_value()) obtained.push_back(*o);
      }
      if (Chance(r, 0.05)) thread.Start();  // Idempotent.
      if (Chance(r, 0.05) && k < puts) {
        switch (Int(r, 0, 2)) {
          case 0:
            thread.Stop();
            stopped = true;
            if (Chance(r, 0.5)) thread.Stop();
            if (Chance(r, 0.3)) std::this_thread::sleep_for(1ms);
            VERIF(concurrent == 0, "recurring-stop", "running after Stop");
            stopped = false;
            thread.Start();
            break;
          default: thread.Restart(); break;
        }
        ++stops;
      }
    }
    // The last input is picked, and nothing can replace it or its output.
    while (obtained.empty() || obtained.back() != puts * 11 + 3) {
      if (auto const o = thread.Get(); o.has_value()) {
        obtained.push_back(*o);
      } else {
        std::this_thread::sleep_for(50us);
      }
    }
    VERIF(!thread.Get().has_value(), "recurring-output-twice",
          "an output was obtained twice");
    if (Chance(r, 0.5)) {
      thread.Stop();
      stopped = true;
      VERIF(concurrent == 0, "recurring-stop", "running after Stop");
    }
    std::lock_guard<std::mutex> l(lock);
    for (std::size_t k = 1; k < executed.size(); ++k) {
      VERIF(executed[k] > executed[k - 1], "recurring-order",
            "input " << executed[k] << " executed after " << executed[k - 1]);
    }
    std::int64_t last = -1;
    for (auto const o : obtained) {
      std::int64_t const x = (o - 3) / 11;
      VERIF((o - 3) % 11 == 0 &&
                std::find(executed.begin(), executed.end(), x) !=
                    executed.end() &&
                !failing.contains(x),
            "recurring-output", "output " << o << " from nowhere");
      VERIF(x > last, "recurring-output-order", "output " << o << " out of order");
      last = x;
    }
    if (stops == 0) {
      for (std::size_t k = 0; k < executed.size(); ++k) {
        VERIF(executed_at[k] - start >=
                  std::chrono::milliseconds(period_ms) * static_cast<int>(k),
              "recurring-period", "execution " << k << " too early");
      }
    }
    (void)base;
    Count("recurring-executions", executed.size());
    Count("recurring-outputs", obtained.size());
    Count("recurring-stops", stops);
    Case(Str("recurring ", i, " ", executed.size(), " ", obtained.size(), " ",
             stops),
         puts > 1);
  }
  // Destruction while an action is in progress; without output.
  for (std::int64_t i = 0; i < N(40); ++i) {
    SetCase(Str("recurring-destroy #", i));
    std::atomic<bool> destroyed = false;
    std::atomic<int> executions = 0;
    std::atomic<bool> in_action = false;
    bool const wait_for_action = Chance(r, 0.5);
    {
      RecurringThread<int> thread(
          [&](int) {
            in_action = true;
            VERIF(!destroyed, "recurring-after-destruction", "action");
            std::this_thread::sleep_for(200us);
            ++executions;
            in_action = false;
            return absl::OkStatus();
          },
          1ms);
      thread.Start();
      thread.Put(1);
      if (wait_for_action) {
        while (executions == 0 && !in_action) std::this_thread::yield();
      }
      Pause(r);
      thread.Stop();
      VERIF(!in_action, "recurring-stop", "running after Stop");
    }
    destroyed = true;
    VERIF(executions <= 1, "recurring-twice", executions << " executions");
    VERIF(!wait_for_action || executions == 1, "recurring-lost",
          "action interrupted");
    Case(Str("destroy ", i, wait_for_action, executions.load()));
  }
}

void Stoppable() {
  Rng r = MakeRng("stoppable");
  for (std::int64_t i = 0; i < N(100); ++i) {
    SetCase(Str("stoppable #", i));
    int const threads = Int(r, 1, 4);
    std::vector<std::atomic<int>> state(threads);
    std::vector<std::jthread> ts;
    for (int t = 0; t < threads; ++t) {
      ts.push_back(MakeStoppableThread([&state, t] {
        state[t] = 1;
        auto const f = [&]() -> absl::Status {
          for (;;) {
            RETURN_IF_STOPPED;
            std::this_thread::yield();
          }
        };
        absl::Status const s = f();
        state[t] = s.code() == absl::StatusCode::kCancelled ? 2 : 3;
      }));
    }
    // Only the thread that is asked to stop does.
    int const victim = Int(r, 0, threads - 1);
    for (int t = 0; t < threads; ++t) {
      while (state[t] == 0) std::this_thread::yield();
    }
    Pause(r);
    ts[victim].request_stop();
    ts[victim].join();
    VERIF(state[victim] == 2, "stoppable-status", "state " << state[victim]);
    for (int t = 0; t < threads; ++t) {
      if (t != victim) {
        VERIF(state[t] == 1, "stoppable-others", "state " << state[t]);
      }
    }
    ts.clear();
    for (int t = 0; t < threads; ++t) {
      VERIF(state[t] == 2, "stoppable-status", "state " << state[t]);
    }
    VERIF(!this_stoppable_thread::get_stop_token().stop_requested(),
          "stoppable-main", "stop requested on a thread that is not stoppable");
    Case(Str("stoppable ", i, " ", threads, " ", victim));
  }
}

void Callbacks() {
  Rng r = MakeRng("callbacks");
  for (std::int64_t i = 0; i < N(80); ++i) {
    int const calls = Int(r, 0, 40);
    SetCase(Str("push-pull #", i, " calls=", calls));
    Perturbed(r);
    std::vector<std::int64_t> received;
    std::uint64_t const seed = r();
    {
      PushPullExecutor<std::int64_t, std::int64_t, std::int64_t, std::string>
          executor([&](std::function<std::int64_t(std::int64_t, std::string)> f)
                       -> std::int64_t {
            Rng tr(seed);
            std::int64_t sum = 0;
            for (int k = 0; k < calls; ++k) {
              Pause(tr);
              std::int64_t const y = f(k, Str("argument ", k));
              VERIF(y == 1000 + 3 * k, "callback-result",
                    "call " << k << " returned " << y);
              sum += y;
            }
            return sum;
          });
      std::int64_t x = -1;
      std::string s;
      std::int64_t expected = 0;
      while (executor.callback().Pull(x, s)) {
        VERIF(s == Str("argument ", x), "callback-arguments",
              "arguments torn: " << x << ", " << s);
        received.push_back(x);
        expected += 1000 + 3 * x;
        Pause(r);
        executor.callback().Push(1000 + 3 * x);
      }
      VERIF(!executor.callback().Pull(x, s), "callback-shutdown",
            "arguments after the end");
      std::int64_t const sum = executor.get();
      VERIF(sum == expected, "callback-sum", sum << " vs. " << expected);
    }
    bool in_order = received.size() == static_cast<std::size_t>(calls);
    for (int k = 0; in_order && k < calls; ++k) in_order = received[k] == k;
    VERIF(in_order, "callback-exactly-once",
          received.size() << " arguments for " << calls << " calls");
    Count("callbacks", calls);
    Case(Str("push-pull ", i, " ", calls), calls > 1);
  }
}

void Run() {
  if (Selected("pool")) { PoolHistory(); PoolTryAdd(); PoolTryAddRace(); }
  if (Selected("bundle")) { Bundles(); Stoppable(); }
  if (Selected("recurring")) { Recurring(); Callbacks(); }
#if defined(PRINCIPIA_VERIF_MUTEX)
  Count("perturbations", absl::shim::Perturbations());
#endif
}

}  // namespace

VERIF_MAIN(Run)
