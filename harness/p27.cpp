// P27: growth with look-ahead 2 to 4.
#include "explain.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const auto f = explain_run();
  std::vector<mc::Space> sp;
  const std::vector<Card> cs{{3, 2, 4}, {4, 2, 5}, {4, 4, 4}, {5, 3, 6}, {6, 6, 6}};
  {
    const Radix r{511, 4, 3, 2, cs.size(), T ? u64{4} : u64{1}};
    sp.push_back(as_space({"sub3x3", "all cell subsets of a 3x3 grid x 4 geometries (2 with distinct attributes) x look-ahead 2..4 x 2 neighbourhoods x 5 cardinality triples x seed orderings", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = grid(3, 3, 1, static_cast<u64>(d[0] + 1), d[1] == 1 ? 2 : 0, d[1], d[1] % 2 ? 3 : 0);
                             if (d[1] >= 2) jitter(m, d[1]);
                             g.fc_iter = d[2] + 2;
                             g.neigh = d[3];
                             set_card(g, cs[d[4]]);
                             g.seed = kSeeds[T ? d[5] : d[1]];
                             g.ar = d[1] ? 6 : 0;
                           }}, f, 256));
  }
  for (int n = 3; n <= 5; ++n) {
    const Radix r{n_graphs(n), T ? u64{10} : u64{3}, 3, 2, 3};
    sp.push_back(as_space({"graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x attribute patterns x look-ahead 2..4 x 2 neighbourhoods x 3 cardinality triples", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(n, d[0], T ? d[1] : 1 + d[1]);
                             g.fc_iter = d[2] + 2;
                             g.neigh = d[3];
                             set_card(g, cs[d[4] + (n > 4)]);
                             g.seed = kSeeds[(d[1] + d[4]) % 4];
                             g.ar = (d[1] * 3 + d[4]) % kNAR;
                           }}, f, 256));
  }
  for (int n = 6; n <= (T ? 8 : 7); ++n) {
    // Isomorphic graphs differ in the seed only
    const auto *gs = n == 6 ? &kGraphs6 : n == 7 ? &kGraphs7 : &kGraphs8;
    const Radix r{gs->size(), static_cast<u64>(n), 3, 2, 2};
    sp.push_back(as_space({"graphs" + std::to_string(n) + "u", "all graphs on " + std::to_string(n) + " nodes up to isomorphism (" + std::to_string(gs->size()) + ") x every node as first seed x look-ahead 2..4 x 2 neighbourhoods x 2 cardinality triples", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(n, (*gs)[d[0]], 3);
                             for (size_t k = 0; k < m.n(); ++k) {
                               m.nbnd[k] = 0;
                               m.prio[k] = k == static_cast<size_t>(d[1]) ? 9. : static_cast<double>((k * 3) % 5);
                             }
                             g.fc_iter = d[2] + 2;
                             g.neigh = d[3];
                             set_card(g, d[4] ? Card{6, 6, 6} : Card{5, 4, 6});
                             g.seed = kSeeds[(d[0] + d[1]) % 4];
                           }}, f, 256));
  }
  {
    const std::vector<Card> cb{{4, 3, 6}, {6, 4, 8}, {3, 2, 5}};
    const Radix r{T ? u64{8} : u64{5}, 3, 2, 3, cb.size(), 4};
    sp.push_back(as_space({"grids", "structured 2D/3D grids x look-ahead 2..4 x 2 neighbourhoods x 3 attribute sets x 3 cardinality triples x 4 seed orderings", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int bm[8] = {0, 1, 4, 6, 9, 2, 7, 10};
                             m = big_mesh(bm[d[0]]);
                             g.fc_iter = d[1] + 2;
                             g.neigh = d[2];
                             if (d[3]) jitter(m, d[3]);
                             set_card(g, cb[d[4]]);
                             g.seed = kSeeds[d[5]];
                           }}, f, 4));
  }
  {
    const auto u = dev_gen(0, T ? 3 : 2, T ? 2 : 3, {0}, false);
    sp.push_back(as_space({u.name, u.what, u.size, [=](u64 i, Mesh &m, Config &g) {
                             u.make(i, m, g);
                             g.fc_iter = 2 + g.fc_iter % 3;
                           }}, f, 16));
  }
  mc::Options opt;
  opt.property = "P27";
  opt.rule = "every coarse cell must be explained by the nondeterministic reference model of growth with look-ahead (some seed, some choice among equal candidates)";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs replayed completely in the model";
  opt.assumptions = {"candidates equal in score and distance are interchangeable"};
  return mc::drive(argc, argv, opt, sp);
}
