// A stand-in for INRIA's CORE-MATH (absent here): correctly-rounded sin and
// cos, obtained by evaluating with far more bits than needed.
#include <cmath>
#include "core-math/cos.h"
#include "core-math/sin.h"
#include "boost/multiprecision/cpp_bin_float.hpp"

namespace {
namespace mp = boost::multiprecision;
using Small = mp::number<
    mp::cpp_bin_float<320, mp::digit_base_2, void, std::int32_t>,
    mp::et_off>;
using Large = mp::number<
    mp::cpp_bin_float<1536, mp::digit_base_2, void, std::int32_t>,
    mp::et_off>;
}  // namespace

extern "C" double cr_sin(double const x) {
  if (!std::isfinite(x)) return x - x;
  if (std::fabs(x) < 0x1p-28) return x;
  return std::fabs(x) < 0x1p64 ? mp::sin(Small(x)).convert_to<double>()
                               : mp::sin(Large(x)).convert_to<double>();
}
extern "C" double cr_cos(double const x) {
  if (!std::isfinite(x)) return x - x;
  return std::fabs(x) < 0x1p64 ? mp::cos(Small(x)).convert_to<double>()
                               : mp::cos(Large(x)).convert_to<double>();
}
