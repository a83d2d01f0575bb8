// A stand-in for gipfeli: a checksummed run-length code.  Like the real thing,
// it works on whole blocks, may expand its input by up to
// MaxCompressedLength, and rejects a block whose boundaries were moved.
#include "gipfeli/gipfeli.h"
#include <cstdint>
#include <cstring>
#include <string>

namespace google::compression {
namespace {
class StringSource : public Source {
 public:
  explicit StringSource(std::string const& s) : s_(s) {}
  std::size_t Available() const override { return s_.size() - p_; }
  const char* Peek(std::size_t* l) override {
    *l = s_.size() - p_;
    return s_.data() + p_;
  }
  void Skip(std::size_t n) override { p_ += n; }
 private:
  std::string const& s_;
  std::size_t p_ = 0;
};
class StringSink : public Sink {
 public:
  explicit StringSink(std::string* s) : s_(s) {}
  void Append(const char* d, std::size_t n) override { s_->append(d, n); }
  char* GetAppendBuffer(std::size_t, std::size_t, char* scratch, std::size_t n,
                        std::size_t* a) override { *a = n; return scratch; }
 private:
  std::string* s_;
};
std::uint32_t Checksum(std::string const& s) {
  std::uint32_t h = 2166136261u;
  for (unsigned char c : s) h = (h ^ c) * 16777619u;
  return h;
}
std::string Drain(Source* source) {
  std::string in;
  while (source->Available() > 0) {
    std::size_t n;
    char const* p = source->Peek(&n);
    in.append(p, n);
    source->Skip(n);
  }
  return in;
}
void Put(std::string& s, std::uint32_t v) {
  for (int i = 0; i < 4; ++i) s.push_back(static_cast<char>(v >> (8 * i)));
}
std::uint32_t Get(char const* p) {
  std::uint32_t v = 0;
  for (int i = 3; i >= 0; --i) v = (v << 8) | static_cast<unsigned char>(p[i]);
  return v;
}
class Rle : public Compressor {
 public:
  std::size_t MaxCompressedLength(std::size_t n) const override {
    return 32 + n + n / 6;
  }
  std::size_t CompressStream(Source* source, Sink* sink) override {
    std::string const in = Drain(source);
    std::string out;
    out += "GIPF";
    Put(out, in.size());
    Put(out, Checksum(in));
    for (std::size_t i = 0; i < in.size();) {
      std::size_t j = i;
      while (j < in.size() && in[j] == in[i] && j - i < 127) ++j;
      if (j - i >= 3) {
        out.push_back(static_cast<char>(0x80 | (j - i)));
        out.push_back(in[i]);
        i = j;
      } else {
        std::size_t k = i;
        while (k < in.size() && k - i < 127 &&
               !(k + 2 < in.size() && in[k] == in[k + 1] &&
                 in[k] == in[k + 2])) ++k;
        out.push_back(static_cast<char>(k - i));
        out.append(in, i, k - i);
        i = k;
      }
    }
    // As the real thing does, ask for a buffer and fill it if it's big enough.
    std::size_t allocated;
    std::string scratch(out.size(), 0);
    char* const buffer = sink->GetAppendBuffer(
        out.size(), MaxCompressedLength(in.size()), scratch.data(),
        scratch.size(), &allocated);
    if (allocated >= out.size()) {
      std::memcpy(buffer, out.data(), out.size());
      sink->Append(buffer, out.size());
    } else {
      sink->Append(out.data(), out.size());
    }
    return out.size();
  }
  bool UncompressStream(Source* source, Sink* sink) override {
    std::string const in = Drain(source);
    if (in.size() < 12 || in.compare(0, 4, "GIPF") != 0) return false;
    std::uint32_t const size = Get(in.data() + 4);
    std::uint32_t const sum = Get(in.data() + 8);
    std::string out;
    for (std::size_t i = 12; i < in.size();) {
      unsigned char const c = in[i++];
      if (c & 0x80) {
        if (i >= in.size()) return false;
        out.append(c & 0x7f, in[i++]);
      } else {
        if (c == 0 || i + c > in.size()) return false;
        out.append(in, i, c);
        i += c;
      }
      if (out.size() > size) return false;
    }
    if (out.size() != size || Checksum(out) != sum) return false;
    sink->Append(out.data(), out.size());
    return true;
  }
};
}  // namespace

std::size_t Compressor::Compress(std::string const& input,
                                 std::string* output) {
  output->clear();
  StringSource source(input);
  StringSink sink(output);
  return CompressStream(&source, &sink);
}
bool Compressor::Uncompress(std::string const& compressed,
                            std::string* output) {
  output->clear();
  StringSource source(compressed);
  StringSink sink(output);
  return UncompressStream(&source, &sink);
}
std::unique_ptr<Compressor> NewGipfeliCompressor() {
  return std::make_unique<Rle>();
}
}  // namespace google::compression
