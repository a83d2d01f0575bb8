#include "lodepng/lodepng.h"
#include <cstdlib>
#include <cstring>
unsigned lodepng_encode32(unsigned char** out, std::size_t* outsize,
                          unsigned char const* image, unsigned w, unsigned h) {
  *outsize = std::size_t{4} * w * h;
  *out = static_cast<unsigned char*>(std::malloc(*outsize));
  std::memcpy(*out, image, *outsize);
  return 0;
}
