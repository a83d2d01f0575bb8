#pragma once
#include <cstddef>
#include <string>
#include "gipfeli/sinksource.h"
namespace google::compression {
class Compressor {
 public:
  virtual ~Compressor() = default;
  virtual std::size_t Compress(std::string const& input, std::string* output);
  virtual bool Uncompress(std::string const& compressed, std::string* output);
  virtual std::size_t MaxCompressedLength(std::size_t n) const = 0;
  virtual std::size_t CompressStream(Source* source, Sink* sink) = 0;
  virtual bool UncompressStream(Source* source, Sink* sink) = 0;
};
}  // namespace google::compression
