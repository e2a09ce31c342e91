// P29: the cells the coarse cells grow from, predicted one after the other by a
// model of the queue, and the growth from exactly that cell.
#include "queue_run.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const auto f = queue_run(false);
  UOpt o;
  o.thorough = mc::is_thorough();
  o.corr = {0};
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o))
    if (u.name != "huge") sp.push_back(as_space(u, f));
  for (int n = 6; n <= (o.thorough ? 8 : 7); ++n) {
    const auto *gs = n == 6 ? &kGraphs6 : n == 7 ? &kGraphs7 : &kGraphs8;
    const Radix r{gs->size(), static_cast<u64>(n), 4, 4, 2};
    sp.push_back(as_space({"queue" + std::to_string(n), "all graphs on " + std::to_string(n) + " nodes up to isomorphism (" + std::to_string(gs->size()) + ") x every node as first seed x 4 seed orderings x 4 (priorities, boundary counts) x small cardinalities", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(n, (*gs)[d[0]], 0);
                             for (size_t k = 0; k < m.n(); ++k) {
                               m.nbnd[k] = d[3] == 0 ? 0 : d[3] == 1 ? static_cast<int>(k % 2) : d[3] == 2 ? static_cast<int>(k * 2 % 3) : static_cast<int>(k % 3);
                               m.prio[k] = d[3] == 0 ? 0. : d[3] == 1 ? static_cast<double>(k * 3 % 5) : d[3] == 2 ? -static_cast<double>(k) : static_cast<double>(k / 2);
                             }
                             m.prio[d[1]] = 9.;
                             g.seed = kSeeds[d[2]];
                             g.neigh = (d[0] + d[1]) % 2;
                             set_card(g, d[4] ? Card{2, 2, 2} : Card{2, 2, 3});
                           }}, f));
  }
  mc::Options opt;
  opt.property = "P29";
  opt.rule = "each isotropic coarse cell contains the cell the queue model hands out next, and is explained by growth from exactly that cell";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs replayed completely in the model";
  opt.assumptions = {"aspect ratios closer than a relative 1e-9 count as equal", "growth is not judged where the graph holds self entries, nor of coarse cells that may hold more than 12 cells next to several cells with more than 16 neighbours"};
  return mc::drive(argc, argv, opt, sp);
}
