#include "universe.hpp"
using namespace vf;
int main(int argc, char **argv) {
  const int c_seed = mc::counter("coarse cells judged"), c_jump = mc::counter("restarts away from earlier coarse cells (neighbourhood first)"),
            c_top = mc::counter("coarse cells started in the top boundary level with full initialisation");
  const bool T = mc::is_thorough();
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const auto r = call(m, g);
    const auto gr = groups(m, r);
    const auto adj = adjacency(m);
    auto bnd = [&](UL i) { return std::min(m.nbnd[i], m.dim); };
    std::vector<char> left(m.n(), 1);
    auto better = [&](UL a, UL b) { return m.prio[a] != m.prio[b] ? m.prio[a] > m.prio[b] : a < b; };
    // best-ranked remaining cell of a level
    auto best = [&](int level) {
      long b = -1;
      for (UL i = 0; i < m.n(); ++i)
        if (left[i] && bnd(i) == level && (b < 0 || better(i, static_cast<UL>(b)))) b = static_cast<long>(i);
      return b;
    };
    auto top_left = [&]() {
      int t = -1;
      for (UL i = 0; i < m.n(); ++i)
        if (left[i]) t = std::max(t, bnd(i));
      return t;
    };
    auto has = [&](size_t k, long c) { return std::find(gr[k].begin(), gr[k].end(), static_cast<UL>(c)) != gr[k].end(); };
    const int mesh_top = top_left();
    bool restarted = false;
    for (size_t k = 0; k < gr.size(); ++k) {
      ctx.count(c_seed);
      const int top = top_left();
      auto bad = [&](const std::string &s) { ctx.fail("coarse cell " + std::to_string(k) + " " + s + "; " + show(r)); };
      if (k == 0 && !has(0, best(top))) bad("does not hold the best-ranked cell " + std::to_string(best(top)));
      if (g.seed == 0 || g.seed == 10) {
        bool ok = false;
        for (auto x : gr[k]) ok = ok || bnd(x) == top;
        if (!ok) bad("holds no cell of the highest remaining boundary level " + std::to_string(top));
      }
      if ((g.seed == 0 || g.seed == 1) && top == mesh_top) {
        ctx.count(c_top);
        if (!has(k, best(top))) bad("does not hold the best-ranked remaining cell " + std::to_string(best(top)) + " of the top boundary level");
      }
      if ((g.seed == 11 && k > 0) || (g.seed == 1 && top < mesh_top)) {
        bool touch = false, possible = false;
        for (UL i = 0; i < m.n(); ++i)
          if (left[i])
            for (auto y : adj[i])
              if (!left[y]) {
                possible = true;
                if (r.f2c[i] == k) touch = true;
              }
        if (possible && !touch && !restarted) bad("does not touch earlier ones although it could");
        if (!possible) {
          ctx.count(c_jump);
          restarted = true;
          if (!has(k, best(top))) bad("does not restart from the best-ranked cell " + std::to_string(best(top)) + " of the highest remaining boundary level");
        }
      }
      for (auto x : gr[k]) left[x] = 0;
    }
    cover(ctx, m, r, gr);
    ctx.trace();
  };
  auto prio = [](int p, int i, int n) -> double {
    switch (p) {
      case 0: return 1.;
      case 1: return i;
      case 2: return -i;
      case 3: return (i * 2) % 3 - 2.;
      case 4: return i == n - 1 ? 0. : -1.;
      default: return (i * 3 + 1) % 4;
    }
  };
  std::vector<mc::Space> sp;
  for (int n = 1; n <= 4; ++n) {
    const Radix r{n_graphs(n), u64{1} << (2 * n), 6, 4, 2, 2};
    sp.push_back(as_space({"bnd" + std::to_string(n), "all graphs on " + std::to_string(n) + " nodes x all boundary vectors in 0..3 x 6 priorities x 4 seed orderings x 2 cardinality triples x dimension", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(n, d[0], d[5] ? 3 : 0);
                             for (int q = 0; q < n; ++q) {
                               m.nbnd[q] = d[1] >> (2 * q) & 3;
                               m.prio[q] = prio(d[2], q, n);
                             }
                             g.seed = kSeeds[d[3]];
                             set_card(g, d[4] ? Card{2, 2, 3} : Card{2, 2, 2});
                           }}, f));
  }
  {
    const Radix r{n_graphs(5), T ? u64{243} : u64{32}, T ? u64{5} : u64{3}, 4};
    sp.push_back(as_space({"bnd5", "all graphs on 5 nodes x boundary vectors over {0,2} ({0,1,2} thorough) x priorities x 4 seed orderings", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(5, d[0], 0);
                             int b = d[1];
                             for (int q = 0; q < 5; ++q) {
                               m.nbnd[q] = T ? b % 3 : 2 * (b % 2);
                               b /= T ? 3 : 2;
                               m.prio[q] = prio(d[2] + (T ? 0 : 2), q, 5);
                             }
                             g.seed = kSeeds[d[3]];
                             set_card(g, {2, 2, 2});
                           }}, f));
    std::vector<std::vector<int>> perms;
    std::vector<int> pm{0, 1, 2, 3};
    do perms.push_back(pm);
    while (std::next_permutation(pm.begin(), pm.end()));
    const Radix q{n_graphs(4), 24, 16, 4, 6};
    sp.push_back(as_space({"orders4", "all graphs on 4 nodes x all 24 priority orders x boundary vectors over {0,1} x 4 seed orderings x priorities non-negative, negative, around -1e9, around -1e300, differing by 2^-50, or below 1e-300", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             m = small_graph(4, d[0], 0);
                             for (int k = 0; k < 4; ++k) {
                               m.nbnd[k] = d[2] >> k & 1;
                               const double x = perms[d[1]][k];
                               m.prio[k] = d[4] == 0 ? x : d[4] == 1 ? x - 10. : d[4] == 2 ? -1e9 + x : d[4] == 3 ? -1e300 * (x + 1) : d[4] == 4 ? 1. + std::ldexp(x, -50) : 1e-305 * x;
                             }
                             g.seed = kSeeds[d[3]];
                             set_card(g, {2, 2, 2});
                           }}, f));
  }
  UOpt o;
  o.thorough = T;
  o.corr = {0};
  for (const auto &u : iso_universe(o)) sp.push_back(as_space(u, f));
  mc::Options opt;
  opt.property = "P08";
  opt.rule = "per coarse cell: seed conditions of the statement evaluated on the cells left when it was created";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs whose complete result was judged";
  return mc::drive(argc, argv, opt, sp);
}
