// P33: which of the sizes a growing coarse cell passes through is kept.
#include "queue_run.hpp"
#include "shapes.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_one = mc::counter("coarse cells grown on request"), c_less = mc::counter("of them smaller than the largest size reached");
  const auto f = queue_run(true);
  std::vector<mc::Space> sp;
  const std::vector<Card> cs{{4, 2, 6}, {3, 2, 5}, {2, 2, 4}, {5, 3, 7}, {3, 3, 4}};
  {
    const Radix r{511, 3, 2, cs.size(), 2, 2, T ? u64{4} : u64{2}};
    sp.push_back(as_space({"sub3x3", "all cell subsets of a 3x3 grid x 3 geometries (1 with distinct attributes) x 2 neighbourhoods x 5 cardinality triples x 2 boundary counts x look-ahead {1,2} x seed orderings", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = grid(3, 3, 1, static_cast<u64>(d[0] + 1), d[1] == 1 ? 2 : 0, d[1], d[4] ? 3 : 0);
                             if (d[1] == 2) jitter(m, 2);
                             g.ar = d[1] == 1 ? 5 : 0;
                             g.neigh = d[2];
                             set_card(g, cs[d[3]]);
                             g.fc_iter = d[5] + 1;
                             g.seed = kSeeds[T ? d[6] : (d[6] * 2 + d[1]) % 4];
                           }}, f, 512));
  }
  for (int n = 6; n <= (T ? 8 : 7); ++n) {
    const auto *gs = n == 6 ? &kGraphs6 : n == 7 ? &kGraphs7 : &kGraphs8;
    const Radix r{gs->size(), static_cast<u64>(n), 2, cs.size(), 2, 3};
    sp.push_back(as_space({"graphs" + std::to_string(n) + "u", "all graphs on " + std::to_string(n) + " nodes up to isomorphism (" + std::to_string(gs->size()) + ") x every node as first seed x 2 neighbourhoods x 5 cardinality triples x look-ahead {1,2} x 3 boundary counts", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(n, (*gs)[d[0]], d[5] == 1 ? 3 : 4);
                             for (size_t k = 0; k < m.n(); ++k) {
                               m.nbnd[k] = d[5] == 0 ? 0 : d[5] == 1 ? static_cast<int>(k % 3) : std::max(0, 3 - static_cast<int>(m.row[k + 1] - m.row[k]));
                               m.prio[k] = k == static_cast<size_t>(d[1]) ? 9. : static_cast<double>((k * 3) % 5);
                             }
                             g.neigh = d[2];
                             set_card(g, cs[d[3]]);
                             g.fc_iter = d[4] + 1;
                             g.seed = kSeeds[(d[0] + d[1]) % 4];
                             g.ar = (d[0] + d[3]) % kNAR;
                           }}, f, 512));
  }
  {
    const Radix r{kBig, 3, 2, cs.size(), 2, 4};
    sp.push_back(as_space({"grids", "12 structured/perforated meshes x 3 attribute sets x 2 neighbourhoods x 5 cardinality triples x look-ahead {1,2} x 4 seed orderings", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = big_mesh(d[0]);
                             if (d[1]) jitter(m, d[1]);
                             g.neigh = d[2];
                             set_card(g, cs[d[3]]);
                             g.fc_iter = d[4] + 1;
                             g.seed = kSeeds[d[5]];
                           }}, f, 16));
  }
  // One coarse cell grown by hand from every cell of every graph, whatever set
  // of cells was agglomerated before
  auto more = cs;
  for (const auto &c : std::vector<Card>{{8, 2, 10}, {12, 4, 14}, {20, 10, 30}}) more.push_back(c);
  // One coarse cell grown by hand from a cell, the given ones being agglomerated
  auto grown = [=](const Mesh &m, const std::vector<std::vector<UL>> &adj, const Geo &q, const Config &g, const std::vector<UL> &before, UL seed, mc::Ctx &ctx) {
    auto gr = std::make_shared<Dual_Graph<UL, double, int>>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
    auto cc = std::make_shared<Coarse_Cell_Container<UL, double, int>>(gr, 1);
    std::vector<char> free(m.n(), 1);
    std::unordered_set<UL> done;
    for (auto x : before) {
      free[x] = 0;
      done.insert(x);
    }
    if (!done.empty()) cc->create_cc(done, 0);
    std::shared_ptr<Seeds_Pool<UL, double, int>> pool = std::make_shared<Seeds_Pool_Boundary_Priority<UL, double, int>>(m.nbnd, m.prio, false);
    std::unordered_set<UL> got;
    int compactness = -7;
    const auto ar = static_cast<CoMMAAspectRatioT>(g.ar);
    const auto nt = static_cast<CoMMANeighbourhoodT>(g.neigh);
    if (g.fc_iter > 1) {
      Agglomerator_Iterative<UL, double, int> a(gr, cc, pool, m.dim, ar, nt, g.fc_iter);
      a.set_agglomeration_parameter(g.goal, g.min, g.max);
      got = a.choose_optimal_cc_and_update_seeds_pool(seed, m.prio, compactness);
    } else {
      Agglomerator_Biconnected<UL, double, int> a(gr, cc, pool, m.dim, ar, nt, g.fc_iter);
      a.set_agglomeration_parameter(g.goal, g.min, g.max);
      got = a.choose_optimal_cc_and_update_seeds_pool(seed, m.prio, compactness);
    }
    ctx.count(c_one);
    ctx.trans();
    const std::set<UL> out(got.begin(), got.end());
    const std::string what = str(out) + " grown from cell " + std::to_string(seed) + ", already agglomerated " + str(before);
    for (UL x = 0; x < m.n(); ++x)
      if (cc->_is_fc_agglomerated[x] != !free[x]) ctx.fail("agglomerated flags changed: " + what);
    // many equal neighbours: too many orders of growth for large coarse cells
    size_t most = 0;
    for (const auto &x : adj) most = std::max(most, x.size());
    const bool judged = most <= 8 || g.max <= 7;
    if (!out.count(seed)) {
      ctx.fail("the starting cell is missing: " + what);
      return;
    }
    Growth w{q, adj, g, out, {}, seed};
    w.exact_size = true;
    if (judged && !w.explains(free)) ctx.fail("unexpected coarse cell " + what);
    if (w.max_ind > static_cast<int>(out.size())) ctx.count(c_less);
    const int c = w.compact({out.begin(), out.end()});
    if (compactness != c) ctx.fail("compactness " + std::to_string(compactness) + " reported instead of " + std::to_string(c) + ": " + what);
  };
  for (int n = 3; n <= (T ? 6 : 5); ++n) {
    const u64 ng = n < 6 ? n_graphs(n) : kGraphs6.size();
    const Radix r{ng, u64{1} << n, 2, more.size(), 2};
    auto one = [=](u64 i, Mesh &m, Config &g) {
      const auto d = r.decode(i);
      m = small_graph(n, n < 6 ? static_cast<u64>(d[0]) : kGraphs6[d[0]], d[2] ? 1 : 4);
      for (auto &b : m.nbnd) b = std::min(b, m.dim);
      set_card(g, more[d[3]]);
      g.fc_iter = d[4] + 1;
      g.neigh = d[2];
      g.ar = (d[0] + d[3]) % kNAR;
      return static_cast<u64>(d[1]);
    };
    mc::Space s;
    s.name = "request" + std::to_string(n);
    s.what = "one coarse cell grown on request from every free cell of " + std::to_string(ng) + " graphs on " + std::to_string(n) + " nodes x every set of cells agglomerated before x 2 (attributes, neighbourhood) x 8 cardinality triples x look-ahead {1,2}";
    s.size = r.total();
    s.chunk = 1024;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      Config g;
      const u64 before = one(i, m, g);
      const auto adj = adjacency(m);
      const Geo q(m);
      for (UL seed = 0; seed < m.n(); ++seed) {
        if (before >> seed & 1) continue;
        grown(m, adj, q, g, subset_of(before, m.n()), seed, ctx);
      }
      ctx.state(mc::mix(hash_mesh(m), before));
      ctx.trace();
    };
    s.describe = [=](u64 i) {
      Mesh m;
      Config g;
      const u64 before = one(i, m, g);
      return "agglomerated before " + str(subset_of(before, m.n())) + " " + describe(m, g);
    };
    sp.push_back(s);
  }
  {
    std::vector<UL> sizes;
    for (auto n : kScaleSizes)
      if (n > 4 && n <= (T ? 48 : 24)) sizes.push_back(n);
    const Radix r{kScaleShapes, sizes.size(), 4, more.size(), 2, 2};
    auto one = [=](u64 i, Mesh &m, Config &g, std::vector<UL> &before) {
      const auto d = r.decode(i);
      m = scale_mesh(d[0], sizes[d[1]], d[5] ? 1 : 0);
      for (auto &b : m.nbnd) b = std::min(b, m.dim);
      for (UL x = 0; x < m.n(); ++x)
        if (d[2] == 1 ? x % 4 == 3 : d[2] == 2 ? x >= m.n() / 2 : d[2] == 3 ? x < m.n() / 3 : false) before.push_back(x);
      set_card(g, more[d[3]]);
      g.fc_iter = d[4] + 1;
      g.neigh = d[5];
      g.ar = d[5] ? (d[0] + d[3]) % kNAR : 0;
    };
    mc::Space s;
    s.name = "requestscale";
    s.what = "one coarse cell grown on request from the first, middle or last free cell of 12 shapes of 5 to " + std::to_string(sizes.back()) + " cells x 4 sets of cells agglomerated before x 8 cardinality triples x look-ahead {1,2} x 2 (attributes, neighbourhood)";
    s.size = r.total();
    s.chunk = 8;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      Config g;
      std::vector<UL> before, left;
      one(i, m, g, before);
      const auto adj = adjacency(m);
      const Geo q(m);
      for (UL x = 0; x < m.n(); ++x)
        if (!std::count(before.begin(), before.end(), x)) left.push_back(x);
      for (auto x : std::set<UL>{left.front(), left[left.size() / 2], left.back()}) grown(m, adj, q, g, before, x, ctx);
      ctx.state(mc::hash_seq(hash_mesh(m), before));
      ctx.trace();
    };
    s.describe = [=](u64 i) {
      Mesh m;
      Config g;
      std::vector<UL> before;
      one(i, m, g, before);
      return "agglomerated before " + str(before) + " " + describe(m, g);
    };
    sp.push_back(s);
  }
  {
    const auto u = dev_gen(0, 3, T ? 4 : 1, {0}, false);
    sp.push_back(as_space({u.name, u.what, u.size, [=](u64 i, Mesh &m, Config &g) {
                             u.make(i, m, g);
                           }}, f, 64));
  }
  mc::Options opt;
  opt.property = "P33";
  opt.rule = "each coarse cell is the size kept by the model on some greedy growth from the predicted starting cell";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs replayed completely in the model";
  opt.assumptions = {"aspect ratios closer than a relative 1e-9 count as equal", "cells grown on request with a maximum cardinality over 7 next to cells of more than 8 neighbours: only membership of the starting cell, flags and reported compactness are judged"};
  return mc::drive(argc, argv, opt, sp);
}
