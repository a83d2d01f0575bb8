#pragma once
#include <cstddef>
unsigned lodepng_encode32(unsigned char** out, std::size_t* outsize,
                          unsigned char const* image, unsigned w, unsigned h);
