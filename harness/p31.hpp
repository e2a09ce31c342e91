#pragma once
#include "scale.hpp"
namespace vf {
using G = Dual_Graph<UL, double, int>;
struct Answers {
  std::vector<UL> neighbours, it_neighbours;
  std::vector<double> weights, it_weights;
  int n, bnd, total;
  bool on;
  double bnd_w, total_w;
  UL cells;
};
bool queries_available();
Answers ask(G &g, UL i);
double direction(G &g, UL a, UL b, std::vector<double> &d);
bool is_connected(G &g);
}  // namespace vf
