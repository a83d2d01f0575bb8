// C03: text encoders round-trip, produce the standard text, and touch nothing
// but their output.
#include <algorithm>
#include <array>
#include <memory>

#include "base/array.hpp"
#include "base/base32768.hpp"
#include "base/base64.hpp"
#include "base/hexadecimal.hpp"
#include "verif.hpp"

using namespace principia::base::_array;
using namespace principia::base::_base32768;
using namespace principia::base::_base64;
using namespace principia::base::_hexadecimal;
using namespace verif;

namespace {

using Bytes = std::vector<std::uint8_t>;

// Buffers of exactly the right size on the heap: ASan watches both ends.
template<typename T>
std::unique_ptr<T[]> Exact(std::vector<T> const& v) {
  std::unique_ptr<T[]> p(new T[v.size()]);
  std::copy(v.begin(), v.end(), p.get());
  return p;
}

std::vector<char> ReferenceHex(Bytes const& b) {
  std::vector<char> r;
  for (auto const x : b) {
    r.push_back("0123456789ABCDEF"[x / 16]);
    r.push_back("0123456789ABCDEF"[x % 16]);
  }
  return r;
}

int ReferenceNibble(char const c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  return 0;
}

Bytes ReferenceUnhex(std::vector<char> const& t) {
  Bytes r;
  for (std::size_t i = 0; i + 1 < t.size(); i += 2) {
    r.push_back(ReferenceNibble(t[i]) * 16 + ReferenceNibble(t[i + 1]));
  }
  return r;
}

// RFC 4648 section 5, without padding, bit by bit.
std::vector<char> ReferenceBase64(Bytes const& b) {
  std::string const alphabet =
      "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  std::vector<char> r;
  std::int64_t const bits = b.size() * 8;
  for (std::int64_t i = 0; i < bits; i += 6) {
    int v = 0;
    for (int j = 0; j < 6; ++j) {
      std::int64_t const k = i + j;
      v = v * 2 + (k < bits ? (b[k / 8] >> (7 - k % 8)) & 1 : 0);
    }
    r.push_back(alphabet[v]);
  }
  return r;
}

std::vector<char16_t> table15(1 << 15);
std::vector<char16_t> table7(1 << 7);

// https://github.com/qntm/base32768, bit by bit; the tables come from the
// encoder, and are checked separately.
std::vector<char16_t> ReferenceBase32768(Bytes const& b) {
  std::vector<char16_t> r;
  std::int64_t const bits = b.size() * 8;
  for (std::int64_t i = 0; i < bits; i += 15) {
    int const n = bits - i <= 7 ? 7 : 15;
    int v = 0;
    for (int j = 0; j < n; ++j) {
      std::int64_t const k = i + j;
      v = v * 2 + (k < bits ? (b[k / 8] >> (7 - k % 8)) & 1 : 1);
    }
    r.push_back(n == 7 ? table7[v] : table15[v]);
  }
  return r;
}

template<typename Char>
std::string Show(std::vector<Char> const& v) {
  std::ostringstream s;
  s << v.size() << ":" << std::hex;
  for (std::size_t i = 0; i < std::min<std::size_t>(v.size(), 60); ++i) {
    s << (static_cast<std::uint64_t>(v[i]) & (sizeof(Char) == 1 ? 0xFF : 0xFFFF))
      << ".";
  }
  return s.str();
}

template<typename E, bool terminated, typename Reference>
void Check(std::string const& name,
           Bytes const& bytes,
           Reference const& reference,
           int const slack) {
  using Char = typename E::Char;
  E encoder;
  std::vector<Char> const expected = reference(bytes);
  auto const input = Exact(bytes);
  Array<std::uint8_t const> const in(input.get(), bytes.size());
  std::int64_t const length = encoder.EncodedLength(in);
  VERIF(length == static_cast<std::int64_t>(expected.size()) + terminated,
        name + ":EncodedLength", length << " for " << bytes.size());
  // The allocating version.
  {
    UniqueArray<Char> const text = encoder.Encode(in);
    std::vector<Char> got(text.data.get(), text.data.get() + text.size);
    if (terminated) {
      VERIF(!got.empty() && got.back() == 0, name + ":termination", Show(got));
      if (!got.empty()) got.pop_back();
    }
    VERIF(got == expected, name + ":Encode",
          Show(bytes) << " gives " << Show(got) << " not " << Show(expected));
  }
  // In place supplied by the caller, with some slack that must not change.
  {
    std::int64_t const size = expected.size() + terminated + slack;
    std::vector<Char> init(size, Char(0x55));
    auto const output = Exact(init);
    encoder.Encode(in, Array<Char>(output.get(), size));
    VERIF(std::equal(expected.begin(), expected.end(), output.get()),
          name + ":Encode-to", Show(bytes));
    if (terminated) {
      VERIF(output[expected.size()] == 0, name + ":termination-to",
            Show(bytes));
    }
    for (std::int64_t i = expected.size() + terminated; i < size; ++i) {
      VERIF(output[i] == Char(0x55), name + ":Encode-overrun", Show(bytes));
    }
  }
  // And back.
  auto const text = Exact(expected);
  Array<Char const> const t(text.get(), expected.size());
  VERIF(encoder.DecodedLength(t) == static_cast<std::int64_t>(bytes.size()),
        name + ":DecodedLength",
        encoder.DecodedLength(t) << " for " << bytes.size());
  {
    auto const decoded = encoder.Decode(t);
    Bytes const got(decoded.data.get(), decoded.data.get() + decoded.size);
    VERIF(got == bytes, name + ":Decode",
          Show(bytes) << " decoded as " << Show(got));
  }
  {
    Bytes const init(bytes.size(), 0xA5);
    auto const output = Exact(init);
    encoder.Decode(t, Array<std::uint8_t>(output.get(), bytes.size()));
    VERIF(std::equal(bytes.begin(), bytes.end(), output.get()),
          name + ":Decode-to", Show(bytes));
  }
  // The input is not changed.
  VERIF(std::equal(bytes.begin(), bytes.end(), input.get()) &&
            std::equal(expected.begin(), expected.end(), text.get()),
        name + ":input", Show(bytes));
}

void CheckAll(Bytes const& b, int const slack) {
  SetCase(Str("round trip of ", Show(b), " slack ", slack));
  Check<HexadecimalEncoder<false>, false>("hex", b, &ReferenceHex, slack);
  Check<HexadecimalEncoder<true>, true>("hex0", b, &ReferenceHex, slack);
  Check<Base64Encoder<false>, false>("base64", b, &ReferenceBase64, slack);
  Check<Base64Encoder<true>, true>("base640", b, &ReferenceBase64, slack);
  Check<Base32768Encoder<false>, false>("base32768", b, &ReferenceBase32768,
                                        slack);
  Check<Base32768Encoder<true>, true>("base327680", b, &ReferenceBase32768,
                                      slack);
}

// Overlapping buffers, as far as the declared contract allows.
template<bool terminated>
void CheckHexOverlap(Rng& r) {
  HexadecimalEncoder<terminated> encoder;
  std::int64_t const n = Int(r, 1, 40);
  Bytes bytes(n);
  for (auto& b : bytes) b = r();
  auto const digits = ReferenceHex(bytes);
  // Encoding: the input begins at most one byte after the output, or entirely
  // after the encoded digits.
  for (int const kind : {0, 1, 2, 3}) {
    std::int64_t const output_begin = Int(r, kind == 2 ? n + 3 : 2, n + 20);
    std::int64_t const input_begin =
        kind == 0   ? output_begin
        : kind == 1 ? output_begin + 1
        : kind == 2 ? output_begin - Int(r, 1, n + 2)
                    : output_begin + 2 * n + terminated + Int(r, 0, 5);
    // The terminating null must not fall on the input.
    std::int64_t const total =
        std::max(output_begin + 2 * n + terminated, input_begin + n);
    std::vector<std::uint8_t> buffer(total, 0x77);
    std::copy(bytes.begin(), bytes.end(), buffer.begin() + input_begin);
    auto const before = buffer;
    auto const p = Exact(buffer);
    SetCase(Str("hex encode n=", n, " in=", input_begin, " out=", output_begin,
                " terminated=", terminated));
    if (terminated && input_begin <= output_begin + 2 * n &&
        input_begin + n > output_begin + 2 * n) {
      continue;
    }
    encoder.Encode(
        Array<std::uint8_t const>(p.get() + input_begin, n),
        Array<char>(reinterpret_cast<char*>(p.get()) + output_begin,
                    2 * n + terminated));
    bool ok = std::equal(digits.begin(), digits.end(),
                         reinterpret_cast<char*>(p.get()) + output_begin);
    VERIF(ok, "hex:overlap-encode", Show(bytes));
    for (std::int64_t i = 0; i < total; ++i) {
      if (i < output_begin || i >= output_begin + 2 * n + terminated) {
        VERIF(p[i] == before[i], "hex:overlap-encode-outside", "at " << i);
      }
    }
    Count("overlapping encodings");
  }
  for (int const kind : {0, 1, 2, 3}) {
    std::int64_t const extra = Int(r, 0, 1);  // An odd character.
    std::int64_t const size = 2 * n + extra;
    std::int64_t const input_begin = Int(r, n + 3, n + 20);
    std::int64_t const output_begin =
        kind == 0   ? input_begin
        : kind == 1 ? input_begin + 1
        : kind == 2 ? input_begin - Int(r, 1, n + 2)
                    : input_begin + 2 * n + Int(r, 0, 3);
    std::int64_t const total = std::max(input_begin + size, output_begin + n);
    std::vector<std::uint8_t> buffer(total, 0x77);
    std::copy(digits.begin(), digits.end(), buffer.begin() + input_begin);
    auto const before = buffer;
    auto const p = Exact(buffer);
    SetCase(Str("hex decode n=", n, " in=", input_begin, " out=", output_begin,
                " size=", size));
    encoder.Decode(
        Array<char const>(reinterpret_cast<char*>(p.get()) + input_begin,
                          size),
        Array<std::uint8_t>(p.get() + output_begin, n));
    VERIF(std::equal(bytes.begin(), bytes.end(), p.get() + output_begin),
          "hex:overlap-decode", Show(bytes));
    for (std::int64_t i = 0; i < total; ++i) {
      if (i < output_begin || i >= output_begin + n) {
        VERIF(p[i] == before[i], "hex:overlap-decode-outside", "at " << i);
      }
    }
    Count("overlapping decodings");
  }
}

// Arbitrary text: the invalid digits are read as 0.
void CheckHexInvalid(std::vector<char> const& text) {
  SetCase(Str("hex decode of ", Show(text)));
  HexadecimalEncoder<false> encoder;
  auto const expected = ReferenceUnhex(text);
  auto const t = Exact(text);
  auto const decoded =
      encoder.Decode(Array<char const>(t.get(), text.size()));
  Bytes const got(decoded.data.get(), decoded.data.get() + decoded.size);
  VERIF(got == expected, "hex:invalid",
        Show(text) << " decoded as " << Show(got) << " not " << Show(expected));
  // A larger output.
  Bytes const init(expected.size() + 3, 0xA5);
  auto const output = Exact(init);
  encoder.Decode(Array<char const>(t.get(), text.size()),
                 Array<std::uint8_t>(output.get(), init.size()));
  VERIF(std::equal(expected.begin(), expected.end(), output.get()) &&
            output[expected.size()] == 0xA5 &&
            output[expected.size() + 1] == 0xA5 &&
            output[expected.size() + 2] == 0xA5,
        "hex:decode-overrun", Show(text));
}

void LearnTables() {
  Base32768Encoder<false> encoder;
  for (int k = 0; k < 1 << 15; ++k) {
    Bytes const b = {static_cast<std::uint8_t>(k >> 7),
                     static_cast<std::uint8_t>(k << 1)};
    auto const t = encoder.Encode(Array<std::uint8_t const>(b.data(), 2));
    HARNESS_CHECK(t.size == 2);
    table15[k] = t.data[0];
  }
  // 15 bytes are 8 code points; 2 are one code point of 15 and one of 7; the
  // one of 7 has only one significant bit; vary the number of bytes to reach
  // the others.  N bytes leave 8N mod 15 bits: 14 bytes leave 7.
  for (int k = 0; k < 1 << 7; ++k) {
    Bytes b(14, 0);
    b[13] = k;
    auto const t = encoder.Encode(Array<std::uint8_t const>(b.data(), 14));
    HARNESS_CHECK(t.size == 8);
    table7[k] = t.data[7];
  }
  std::uint64_t h = 0;
  for (int k = 0; k < 1 << 15; ++k) {
    char16_t const c = table15[k];
    h = h * 31 + c;
    VERIF(k == 0 || c > table15[k - 1], "base32768:table15",
          "not increasing at " << k);
    VERIF(c < 0xD800 || c > 0xDFFF, "base32768:surrogate", "at " << k);
    VERIF(c % 32 == k % 32, "base32768:block", "at " << k);
  }
  for (int k = 0; k < 1 << 7; ++k) {
    char16_t const c = table7[k];
    h = h * 31 + c;
    VERIF(k == 0 || c > table7[k - 1], "base32768:table7",
          "not increasing at " << k);
    VERIF(c % 32 == k % 32, "base32768:block7", "at " << k);
    VERIF(!std::binary_search(table15.begin(), table15.end(), c),
          "base32768:ambiguous", "at " << k);
  }
  // The repertoires of the specification.
  VERIF(h == 10411019313636294720u, "base32768:repertoires", "hash " << h);
  VERIF(table15[0] == u'\u04A0' && table15[32767] == u'\uA85F' &&
            table7[0] == u'\u0180' && table7[127] == u'\u029F',
        "base32768:ends",
        std::hex << int(table15[0]) << " " << int(table15[32767]) << " "
                 << int(table7[0]) << " " << int(table7[127]));
}

void RunAll() {
  LearnTables();
  Rng r = MakeRng("encoders");
  // Exhaustively: the small sizes, split between the processes.
  CheckAll({}, 0);
  int const step = S().thorough ? 1 : 7;
  for (int v = S().shard; v < 256; v += S().shards) {
    CheckAll({static_cast<std::uint8_t>(v)}, v % 3);
    CaseHash(v);
  }
  for (int v = S().shard; v < 65536; v += S().shards * step) {
    CheckAll({static_cast<std::uint8_t>(v >> 8),
              static_cast<std::uint8_t>(v)}, 0);
    CaseHash(0x10000 + v);
  }
  for (int c = 0; c < 256; ++c) {
    CheckHexInvalid({static_cast<char>(c), 'F'});
    CheckHexInvalid({'E', static_cast<char>(c)});
    CaseHash(0x20000 + c);
  }
  std::int64_t const n = N(3000);
  for (std::int64_t i = 0; i < n; ++i) {
    Bytes b(Int(r, 0, Chance(r, 0.3) ? 2000 : 80));
    int const kind = Int(r, 0, 3);
    for (auto& x : b) {
      x = kind == 0 ? 0 : kind == 1 ? 0xFF : kind == 2 ? (r() % 2) * 255 : r();
    }
    CheckAll(b, Int(r, 0, 9));
    Case(Show(b), b.size() > 2);
    CheckHexOverlap<false>(r);
    CheckHexOverlap<true>(r);
    std::vector<char> text(Int(r, 0, 60));
    for (auto& c : text) {
      c = Chance(r, 0.3) ? r() : "0123456789abcdefABCDEFgG@`/:"[r() % 28];
    }
    CheckHexInvalid(text);
    Case("hex " + Show(text), text.size() > 2);
  }
  Count("random inputs", n);
}

}  // namespace

VERIF_MAIN(RunAll)
