#include "universe.hpp"
using namespace vf;
int main(int argc, char **argv) {
  const int c_iso = mc::counter("isotropic coarse cells"), c_small = mc::counter("undersized coarse cells (nothing left to absorb)"),
            c_full = mc::counter("coarse cells at maximum cardinality");
  UOpt o;
  o.giant = true;
  o.thorough = mc::is_thorough();
  o.corr = {0};
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const auto r = call(m, g);
    const auto gr = groups(m, r);
    const auto adj = adjacency(m);
    for (size_t k = n_aniso(g, r); k < gr.size(); ++k) {
      ctx.count(c_iso);
      if (gr[k].size() > static_cast<size_t>(g.max)) ctx.fail("coarse cell " + std::to_string(k) + " exceeds the maximum cardinality; " + show(r));
      if (gr[k].size() == static_cast<size_t>(g.max)) ctx.count(c_full);
      if (gr[k].size() < static_cast<size_t>(g.min)) {
        ctx.count(c_small);
        for (auto x : gr[k])
          for (auto y : adj[x])
            if (r.f2c[y] > k) ctx.fail("undersized coarse cell " + std::to_string(k) + " touches later coarse cell " + std::to_string(r.f2c[y]) + "; " + show(r));
      }
    }
    cover(ctx, m, r, gr);
    ctx.trace();
  };
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o)) sp.push_back(as_space(u, f));
  // All ordered cardinality triples
  std::vector<Card> cs;
  for (int mn = 2; mn <= 6; ++mn)
    for (int go = mn; go <= 6; ++go)
      for (int mx = go; mx <= 6; ++mx) cs.push_back({go, mn, mx});
  cs.push_back({8, 6, 10});
  cs.push_back({8, 2, 12});
  cs.push_back({20, 2, 30});
  {
    const Radix r{511, cs.size(), 4, 2, 4};
    sp.push_back(as_space({"triples3x3", "all subsets of a 3x3 grid x all ordered triples in 2..6 plus three typical large ones x 4 seed orderings x 2 neighbourhoods x look-ahead 1..4", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = grid(3, 3, 1, d[0] + 1, 0, d[0] % 4, 0);
                             set_card(g, cs[d[1]]);
                             g.seed = kSeeds[d[2]];
                             g.neigh = d[3];
                             g.fc_iter = d[4] + 1;
                           }}, f));
    const Radix q{kBig, cs.size(), 4, 2, 2};
    sp.push_back(as_space({"triplesbig", "12 larger meshes x all triples x 4 seed orderings x 2 neighbourhoods x look-ahead {1,2}", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             m = big_mesh(d[0]);
                             set_card(g, cs[d[1]]);
                             g.seed = kSeeds[d[2]];
                             g.neigh = d[3];
                             g.fc_iter = d[4] + 1;
                           }}, f, 128));
  }
  mc::Options opt;
  opt.property = "P03";
  opt.rule = "isotropic coarse cells have at most max cells; fewer than min only when all their neighbours belong to smaller ids";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs whose complete result was judged";
  return mc::drive(argc, argv, opt, sp);
}
