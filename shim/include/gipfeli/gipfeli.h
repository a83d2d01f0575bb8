#pragma once
#include <memory>
#include "gipfeli/compression.h"
namespace google::compression {
std::unique_ptr<Compressor> NewGipfeliCompressor();
}  // namespace google::compression
