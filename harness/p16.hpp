#pragma once
#include "mesh.hpp"
namespace vf {
struct Outcome {
  bool rejected = false, skipped = false;
  std::string why;
  Result r;
};
template<class F>
Outcome outcome(const F &f) {
  Outcome o;
  try {
    o.r = f();
  } catch (const std::invalid_argument &e) {
    o.rejected = true;
    o.why = e.what();
  }
  return o;
}
using LD = long double;
Outcome run_t0(const Mesh &m, const Config &g);
Outcome run_t1(const Mesh &m, const Config &g);
Outcome run_t2(const Mesh &m, const Config &g);
Outcome run_t3(const Mesh &m, const Config &g);
void py_start();
// form 0 positional, 1 keywords and enumerators, 10+k: k trailing arguments
Outcome py_call(const Mesh &m, const Config &g, int form);
std::string py_helpers(const Mesh &m, const Result &r);
}  // namespace vf
