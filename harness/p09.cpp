#include "explain.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const auto f = explain_run();
  std::vector<mc::Space> sp;
  const std::vector<Card> cs{{2, 2, 2}, {3, 2, 4}, {4, 2, 5}, {4, 4, 4}, {5, 3, 6}};
  {
    const Radix r{511, 4, kNAR, 2, cs.size(), T ? u64{4} : u64{2}};
    sp.push_back(as_space({"sub3x3", "all cell subsets of a 3x3 grid x 4 geometries (2 with distinct attributes) x 10 aspect ratios x 2 neighbourhoods x 5 cardinality triples x seed orderings", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = grid(3, 3, 1, static_cast<u64>(d[0] + 1), d[1] == 1 ? 2 : 0, d[1], d[1] % 2 ? 3 : 0);
                             if (d[1] >= 2) jitter(m, d[1]);
                             g.ar = d[2];
                             g.neigh = d[3];
                             set_card(g, cs[d[4]]);
                             g.seed = kSeeds[T ? d[5] : (d[5] * 2 + d[1]) % 4];
                           }}, f, 512));
  }
  for (int n = 2; n <= 5; ++n) {
    static const int pats[5] = {1, 4, 2, 9, 3};
    const int np = n < 5 || T ? 5 : 2;
    const Radix r{n_graphs(n), static_cast<u64>(np), kNAR, 2, 3};
    sp.push_back(as_space({"graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x attribute patterns x 10 aspect ratios x 2 neighbourhoods x 3 cardinality triples", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(n, d[0], pats[d[1]]);
                             g.ar = d[2];
                             g.neigh = d[3];
                             set_card(g, cs[d[4] + (n > 3)]);
                             g.seed = kSeeds[(d[1] + d[4]) % 4];
                           }}, f, 512));
  }
  {
    const Radix r{T ? u64{4095} : u64{1023}, 2, kNAR, 2, 3};
    const std::vector<Card> c3{{4, 3, 5}, {3, 2, 6}, {6, 4, 8}};
    sp.push_back(as_space({"sub3d", T ? "all cell subsets of a 2x2x3 grid x geometry with/without distinct attributes x 10 aspect ratios x 2 neighbourhoods x 3 cardinality triples" : "all cell subsets of a 5x2 slab seen as 3D x geometry with/without distinct attributes x 10 aspect ratios x 2 neighbourhoods x 3 cardinality triples", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = T ? grid(2, 2, 3, static_cast<u64>(d[0] + 1), 0, 0, 0) : grid(5, 2, 1, static_cast<u64>(d[0] + 1), 0, 0, 0, false, true);
                             if (d[1]) jitter(m, 1);
                             g.ar = d[2];
                             g.neigh = d[3];
                             set_card(g, c3[d[4]]);
                             g.seed = kSeeds[(d[0] + d[4]) % 4];
                           }}, f, 512));
  }
  {
    const std::vector<Card> cb{{2, 2, 3}, {4, 2, 4}, {4, 3, 6}, {6, 4, 8}, {8, 6, 10}, {3, 2, 5}};
    const Radix r{8, 3, kNAR, 2, cb.size(), 4};
    sp.push_back(as_space({"grids", "8 structured 2D/3D grids x 3 attribute sets x 10 aspect ratios x 2 neighbourhoods x 6 cardinality triples x 4 seed orderings", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int bm[8] = {0, 1, 2, 4, 6, 7, 9, 10};
                             m = big_mesh(bm[d[0]]);
                             if (d[1]) jitter(m, d[1]);
                             g.ar = d[2];
                             g.neigh = d[3];
                             set_card(g, cb[d[4]]);
                             g.seed = kSeeds[d[5]];
                           }}, f, 64));
  }
  for (int n = 6; n <= (T ? 8 : 7); ++n) {
    // Isomorphic graphs differ in the seed only
    const auto *gs = n == 6 ? &kGraphs6 : n == 7 ? &kGraphs7 : &kGraphs8;
    const Radix r{gs->size(), static_cast<u64>(n), kNAR, 2, 2};
    sp.push_back(as_space({"graphs" + std::to_string(n) + "u", "all graphs on " + std::to_string(n) + " nodes up to isomorphism (" + std::to_string(gs->size()) + ") x every node as first seed x 10 aspect ratios x 2 neighbourhoods x 2 cardinality triples", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(n, (*gs)[d[0]], d[4] ? 3 : 4);
                             for (size_t k = 0; k < m.n(); ++k) {
                               m.nbnd[k] = d[4] ? 0 : static_cast<int>(k % 3);
                               m.prio[k] = k == static_cast<size_t>(d[1]) ? 9. : static_cast<double>((k * 3) % 5);
                             }
                             g.ar = d[2];
                             g.neigh = d[3];
                             set_card(g, d[4] ? Card{6, 6, 6} : Card{5, 4, 6});
                             g.seed = kSeeds[(d[0] + d[1]) % 4];
                           }}, f, 512));
  }
  {
    const auto u = dev_gen(0, 3, T ? 4 : 1, {0}, false);
    sp.push_back(as_space({u.name, u.what, u.size, [=](u64 i, Mesh &m, Config &g) {
                             u.make(i, m, g);
                             g.fc_iter = 1;
                           }}, f, 64));
  }
  mc::Options opt;
  opt.property = "P09";
  opt.rule = "every coarse cell must be explained by the nondeterministic reference model of greedy growth (some seed, some choice among equal candidates)";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs replayed completely in the model";
  opt.assumptions = {"aspect ratios closer than a relative 1e-9 count as equal"};
  return mc::drive(argc, argv, opt, sp);
}
