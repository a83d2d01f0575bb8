// Stand-in for the interface of gipfeli (absent here).
#pragma once
#include <cstddef>
namespace google::compression {
class Source {
 public:
  virtual ~Source() = default;
  virtual std::size_t Available() const = 0;
  virtual const char* Peek(std::size_t* length) = 0;
  virtual void Skip(std::size_t n) = 0;
};
class Sink {
 public:
  virtual ~Sink() = default;
  virtual void Append(const char* data, std::size_t n) = 0;
  virtual char* GetAppendBuffer(std::size_t min_size,
                                std::size_t desired_size_hint,
                                char* scratch,
                                std::size_t scratch_size,
                                std::size_t* allocated_size) = 0;
};
}  // namespace google::compression
