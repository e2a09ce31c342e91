#include "p31.hpp"
namespace vf {
#ifdef STUB
bool queries_available() { return false; }
Answers ask(G &, UL) { return {}; }
double direction(G &, UL, UL, std::vector<double> &) { return 0; }
bool is_connected(G &) { return true; }
#else
bool queries_available() { return true; }
Answers ask(G &g, UL i) {
  Answers a;
  a.neighbours = g.get_neighbours(i);
  a.weights = g.get_weights(i);
  a.it_neighbours.assign(g.neighbours_cbegin(i), g.neighbours_cend(i));
  a.it_weights.assign(g.weights_cbegin(i), g.weights_cend(i));
  a.n = g.get_nb_of_neighbours(i);
  a.bnd = g.get_n_boundary_faces(i);
  a.total = g.get_total_n_faces(i);
  a.on = g.is_on_boundary(i);
  a.bnd_w = g.estimated_boundary_weight(i);
  a.total_w = g.estimated_total_weight(i);
  a.cells = g.get_nb_cells();
  return a;
}
double direction(G &g, UL a, UL b, std::vector<double> &d) { return g.get_center_direction(a, b, d); }
bool is_connected(G &g) { return g.check_connectivity(); }
#endif
}  // namespace vf
