// C01: what is pulled from a serializer and pushed into a deserializer is the
// message, the whole message, and nothing but the message.
#include <deque>
#include <memory>
#include <thread>

#include "base/array.hpp"
#include "base/pull_serializer.hpp"
#include "base/push_deserializer.hpp"
#include "gipfeli/gipfeli.h"
#include "random_message.hpp"
#include "serialization/ksp_plugin.pb.h"
#include "serialization/physics.pb.h"
#include "verif.hpp"
#if defined(PRINCIPIA_VERIF_MUTEX)
#include "shim_perturb.h"
#endif

using namespace principia::base::_array;
using namespace principia::base::_pull_serializer;
using namespace principia::base::_push_deserializer;
using google::protobuf::Message;
using namespace verif;

namespace {

std::unique_ptr<Message> NewMessage(int const kind) {
  switch (kind) {
    case 0: return std::make_unique<principia::serialization::Plugin>();
    case 1: return std::make_unique<principia::serialization::Ephemeris>();
    case 2: return std::make_unique<
        principia::serialization::DiscreteTrajectory>();
    case 3: return std::make_unique<principia::serialization::FlightPlan>();
    case 4: return std::make_unique<
        principia::serialization::ContinuousTrajectory>();
    default: return std::make_unique<principia::serialization::Vessel>();
  }
}

void Pause(Rng& r) {
  switch (Int(r, 0, 40)) {
    case 0:
      std::this_thread::sleep_for(std::chrono::microseconds(Int(r, 1, 300)));
      break;
    case 1:
    case 2:
      std::this_thread::yield();
      break;
    default:
      break;
  }
}

std::uint64_t Checksum(Array<std::uint8_t> const& a) {
  std::uint64_t h = a.size;
  for (std::int64_t i = 0; i < a.size; ++i) h = h * 31 + a.data[i];
  return h;
}

void Pipe() {
  Rng r = MakeRng("pipe");
  std::int64_t const n = N(250);
  for (std::int64_t i = 0; i < n; ++i) {
    int const kind = Int(r, 0, 5);
    bool const compressed = Chance(r, 0.5);
    int const min_chunks = compressed ? 4 : 3;
    int const chunks =
        Chance(r, 0.4) ? min_chunks : Int(r, min_chunks, min_chunks + 8);
    int const chunk_size = Chance(r, 0.2) ? Int(r, 1, 4)
                                          : Int(r, 1, Chance(r, 0.5) ? 40 : 5000);
    int const out_chunk_size =
        compressed ? chunk_size : Int(r, 1, Chance(r, 0.5) ? 40 : 5000);
    int const out_chunks = Int(r, 1, 6);
    auto message = NewMessage(kind);
    int budget = Chance(r, 0.1) ? 0 : Int(r, 1, chunk_size < 5 ? 60 : 600);
    // Protocol buffers of this version back up, by 0 bytes, a stream that they
    // never read when the message is empty; no message of Principia is.
    do {
      Randomize(r, *message, budget, chunk_size < 5 ? 300 : 20000);
      budget = 10;
    } while (message->ByteSizeLong() == 0);
    std::string const expected = message->SerializeAsString();
    SetCase(Str("pipe #", i, " type=", message->GetTypeName(), " bytes=",
                expected.size(), " chunk=", chunk_size, "x", chunks, " out=",
                out_chunk_size, "x", out_chunks, " compressed=", compressed));
#if defined(PRINCIPIA_VERIF_MUTEX)
    absl::shim::SetPerturbation(r() | 1);
#endif
    auto const new_compressor = [&] {
      return compressed ? google::compression::NewGipfeliCompressor() : nullptr;
    };
    std::int64_t const max_chunk =
        compressed ? std::unique_ptr<google::compression::Compressor>(
                         google::compression::NewGipfeliCompressor())
                         ->MaxCompressedLength(chunk_size)
                   : chunk_size;

    // Pull.
    std::vector<std::string> pulled;
    std::set<std::uint8_t const*> addresses;
    {
      PullSerializer serializer(
          chunk_size, chunks,
          std::unique_ptr<google::compression::Compressor>(new_compressor()));
      bool const owned = Chance(r, 0.5);
      if (owned) {
        std::unique_ptr<Message> copy(message->New());
        copy->CopyFrom(*message);
        serializer.Start(std::unique_ptr<Message const>(std::move(copy)));
      } else {
        serializer.Start(message.get());
      }
      Rng slow(r());
      Array<std::uint8_t> held;
      std::uint64_t held_checksum = 0;
      bool has_held = false;
      for (;;) {
        Pause(slow);
        if (has_held) {
          VERIF(Checksum(held) == held_checksum, "chunk-changed-while-held",
                "a chunk handed to the client changed before the next pull");
        }
        Array<std::uint8_t> const chunk = serializer.Pull();
        Count("chunks-pulled");
        VERIF(chunk.size <= max_chunk, "chunk-too-large",
              "chunk of " << chunk.size << " bytes, bound " << max_chunk);
        if (chunk.size == 0) break;
        addresses.insert(chunk.data);
        held = chunk;
        held_checksum = Checksum(chunk);
        has_held = true;
        pulled.emplace_back(reinterpret_cast<char const*>(chunk.data),
                            chunk.size);
      }
    }
    VERIF(addresses.size() <= static_cast<std::size_t>(chunks),
          "too-many-chunks", addresses.size() << " buffers, bound " << chunks);
    if (!compressed) {
      std::string all;
      for (auto const& p : pulled) all += p;
      VERIF(all == expected, "stream-differs",
            "pulled " << all.size() << " bytes that are not the "
                      << expected.size() << " of the message");
    }

    // Push.
    std::vector<std::string> to_push;
    if (compressed) {
      to_push = pulled;
    } else {
      // Cut at will.
      std::size_t p = 0;
      std::size_t const average = Int(r, 1, Chance(r, 0.5) ? 30 : 9000);
      while (p < expected.size()) {
        std::size_t const l =
            std::min<std::size_t>(expected.size() - p, Int(r, 1, 2 * average));
        to_push.push_back(expected.substr(p, l));
        p += l;
      }
    }
    std::mutex events_lock;
    std::vector<std::int64_t> events;
    std::atomic<int> finals = 0;
    bool final_equal = false;
    auto target = NewMessage(kind);
    bool const owned_target = Chance(r, 0.5);
    // Some contents that the deserialization must not leave behind.
    if (Chance(r, 0.3)) {
      int b = 20;
      Randomize(r, *target, b, 50);
    }
    {
      PushDeserializer deserializer(
          out_chunk_size, out_chunks,
          std::unique_ptr<google::compression::Compressor>(new_compressor()));
      auto const done = [&](Message const& m) {
        ++finals;
        std::lock_guard<std::mutex> l(events_lock);
        events.push_back(-1);
        final_equal = m.SerializeAsString() == expected &&
                      google::protobuf::util::MessageDifferencer::Equals(
                          m, *message);
      };
      if (owned_target) {
        deserializer.Start(std::move(target), done);
      } else {
        deserializer.Start(target.get(), done);
      }
      Rng slow(r());
      for (std::size_t k = 0; k < to_push.size(); ++k) {
        Pause(slow);
        std::int64_t const size = to_push[k].size();
        auto buffer = std::make_unique<std::uint8_t[]>(size);
        std::memcpy(buffer.get(), to_push[k].data(), size);
        if (Chance(r, 0.3)) {
          deserializer.Push(UniqueArray<std::uint8_t>(std::move(buffer), size));
          std::lock_guard<std::mutex> l(events_lock);
          events.push_back(-2 - static_cast<std::int64_t>(k));
        } else {
          std::uint8_t* const b = buffer.release();
          deserializer.Push(Array<std::uint8_t>(b, size), [&, b, k, size] {
            // The client may reclaim the memory now.
            std::memset(b, 0xA5, size);
            delete[] b;
            std::lock_guard<std::mutex> l(events_lock);
            events.push_back(k);
          });
        }
      }
      int const terminator = Int(r, 0, 1);
      if (terminator == 0) {
        deserializer.Push(Array<std::uint8_t>(nullptr, 0), [&] {
          std::lock_guard<std::mutex> l(events_lock);
          events.push_back(to_push.size());
        });
      } else {
        deserializer.Push(Array<std::uint8_t>(nullptr, 0), nullptr);
      }
    }
    Count("chunks-pushed", to_push.size());
    VERIF(finals == 1, "final-callback", "called " << finals << " times");
    VERIF(final_equal, "message-differs", "deserialized message differs");
    std::set<std::int64_t> taken;
    std::int64_t last = -1;
    bool ordered = true;
    bool final_seen = false;
    for (auto const e : events) {
      if (e == -1) {
        final_seen = true;
      } else if (e <= -2) {
        taken.insert(-2 - e);
      } else {
        ordered &= e > last && !final_seen;
        last = e;
        VERIF(taken.insert(e).second, "callback-twice", "chunk " << e);
      }
    }
    std::size_t const expected_events =
        to_push.size() + (taken.contains(to_push.size()) ? 1 : 0);
    VERIF(taken.size() == expected_events, "callback-missing",
          taken.size() << " of " << expected_events);
    VERIF(ordered, "callback-order", "callbacks out of order");
    Case(Str(current_case), pulled.size() > 1);
    if (pulled.size() > static_cast<std::size_t>(chunks)) {
      Count("histories-with-back-pressure");
    }
  }
}

void Run() {
  Pipe();
}

}  // namespace

VERIF_MAIN(Run)
