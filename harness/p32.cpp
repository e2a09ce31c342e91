// TRY: p32_pairs.cpp
// TRY: p32_vectors.cpp
// TRY: p32_powers.cpp
// P32: helper functions and comparators against their definitions.
#include "p32.hpp"
using namespace vf;

int main(int argc, char **argv) {
  std::vector<mc::Space> sp;
  for (auto *f : {pair_spaces, vector_spaces, power_spaces})
    for (auto &s : f(mc::is_thorough())) sp.push_back(s);
  mc::Options opt;
  opt.property = "P32";
  opt.rule = "every comparator, container helper, vector helper and power equals its definition";
  opt.states_meaning = "distinct arguments";
  opt.transitions_meaning = "calls of helpers";
  opt.traces_meaning = "cases whose every call was compared with the definition";
  return mc::drive(argc, argv, opt, sp);
}
