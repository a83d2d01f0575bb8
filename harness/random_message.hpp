// Random protocol buffers of any type, by reflection.
#pragma once

#include <string>

#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "google/protobuf/util/message_differencer.h"
#include "verif.hpp"

namespace verif {

// Fills `m`.  `budget` bounds the number of fields.
inline void Randomize(Rng& r, google::protobuf::Message& m, int& budget,
                      int const max_string, int const depth = 0) {
  using google::protobuf::FieldDescriptor;
  auto const* const d = m.GetDescriptor();
  auto const* const x = m.GetReflection();
  auto const string = [&]() {
    std::size_t n;
    switch (Int(r, 0, 5)) {
      case 0: n = 0; break;
      case 1: n = Int(r, 0, max_string); break;
      default: n = Int(r, 0, 16); break;
    }
    std::string s(n, '\0');
    bool const compressible = Chance(r, 0.5);
    for (auto& c : s) c = compressible ? static_cast<char>(r() & 1) : r();
    return s;
  };
  auto const text = [&]() {
    std::string s(Int(r, 0, 20), 'x');
    for (auto& c : s) c = static_cast<char>(Int(r, 32, 126));
    return s;
  };
  for (int i = 0; i < d->field_count(); ++i) {
    FieldDescriptor const* const f = d->field(i);
    int n = 1;
    if (f->is_repeated()) {
      n = budget <= 0 || depth > 8 ? 0 : Int(r, 0, depth < 2 ? 8 : 3);
    } else if (!f->is_required() &&
               (budget <= 0 || depth > 8 || Chance(r, 0.4))) {
      n = 0;
    }
    if (f->is_map()) n = 0;
    for (int j = 0; j < n; ++j) {
      --budget;
      bool const rep = f->is_repeated();
      switch (f->cpp_type()) {
#define VERIF_FIELD(TYPE, Name, value)                 \
  case FieldDescriptor::CPPTYPE_##TYPE:                \
    if (rep) {                                         \
      x->Add##Name(&m, f, value);                      \
    } else {                                           \
      x->Set##Name(&m, f, value);                      \
    }                                                  \
    break
        VERIF_FIELD(INT32, Int32, static_cast<std::int32_t>(r()));
        VERIF_FIELD(INT64, Int64, static_cast<std::int64_t>(r()));
        VERIF_FIELD(UINT32, UInt32, static_cast<std::uint32_t>(r()));
        VERIF_FIELD(UINT64, UInt64, r());
        VERIF_FIELD(DOUBLE, Double, LogUniform(r, -300, 300));
        VERIF_FIELD(FLOAT, Float,
                    static_cast<float>(LogUniform(r, -30, 30)));
        VERIF_FIELD(BOOL, Bool, Chance(r, 0.5));
        VERIF_FIELD(
            ENUM, Enum,
            f->enum_type()->value(Int(r, 0, f->enum_type()->value_count() - 1)));
        VERIF_FIELD(STRING, String,
                    f->type() == FieldDescriptor::TYPE_BYTES ? string()
                                                             : text());
#undef VERIF_FIELD
        case FieldDescriptor::CPPTYPE_MESSAGE:
          Randomize(r, rep ? *x->AddMessage(&m, f) : *x->MutableMessage(&m, f),
                    budget, max_string, depth + 1);
          break;
      }
    }
  }
}

}  // namespace verif
