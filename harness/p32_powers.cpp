#include "p32.hpp"
#ifdef STUB
std::vector<mc::Space> vf::power_spaces(bool) { return {}; }
#else
#include <cmath>
#include <utility>
#include "CoMMA/Util.h"
using namespace comma;
using mc::u64;
namespace {
template<class T>
T slow(T x, unsigned p) {
  T r = 1;
  while (p--) r *= x;
  return r;
}
template<class T, unsigned... p>
void powers(T x, mc::Ctx &ctx, std::integer_sequence<unsigned, p...>) {
  const std::pair<unsigned, T> got[] = {{p, int_power<p>(x)}...};
  for (auto &[e, v] : got)
    if (v != slow(x, e)) ctx.fail("power " + std::to_string(e));
  if (_sq(x) != slow(x, 2) || _cb(x) != slow(x, 3)) ctx.fail("square or cube");
}
}  // namespace
std::vector<mc::Space> vf::power_spaces(bool) {
  // Values whose powers are exact: quarters (up to 7 bits), integers
  return {{"powers", "powers 0 to 7 of 257 quarters and integers from -9 to 9, powers 0 to 31 of quarters of few bits and of -1, 0, 1, 2", 276,
           [](u64 i, mc::Ctx &ctx) {
             ctx.state(mc::mix(13, i));
             ctx.trace();
             ctx.trans(10);
             if (i < 257) {
               const double x = static_cast<double>(static_cast<long>(i) - 128) / 4.;
               for (double y : {0., .25, .5, .75, 1., 1.25, 1.5, 2., 2.5, 3., 4., 8., 16., 32.})  // at most 2 bits: exact up to the 22nd power, powers of two always
                 if (std::fabs(x) == y) {
                   powers(x, ctx, std::make_integer_sequence<unsigned, 23>());
                   if (y != .75 && y != 1.25 && y != 1.5 && y != 2.5 && y != 3.) powers(x, ctx, std::make_integer_sequence<unsigned, 32>());
                 }
               powers(static_cast<double>(static_cast<long>(i) - 128) / 4., ctx, std::make_integer_sequence<unsigned, 8>());
             } else {
               const int x = static_cast<int>(i) - 257 - 9;
               if (x >= -1 && x <= 1) powers(x, ctx, std::make_integer_sequence<unsigned, 32>());
               if (x >= -2 && x <= 2) powers(static_cast<long>(x), ctx, std::make_integer_sequence<unsigned, 32>());
               if (x >= -3 && x <= 3) powers(x, ctx, std::make_integer_sequence<unsigned, 19>());
               powers(x, ctx, std::make_integer_sequence<unsigned, 8>());
             }
           },
           [](u64 i) { return i < 257 ? std::to_string((static_cast<double>(i) - 128) / 4.) : std::to_string(static_cast<int>(i) - 266); }, 64}};
}
#endif
