#include "corrections.hpp"
using namespace vf;
int main(int argc, char **argv) {
  const int c_pairs = mc::counter("pairs where correction changed something"), c_split = mc::counter("singular cells split among several coarse cells"),
            c_left = mc::counter("singular cells left alone"), c_same = mc::counter("pairs without singular cells");
  UOpt o;
  o.giant = true;
  o.thorough = mc::is_thorough();
  o.corr = {1, 2, 3, 5};
  auto judge = [=](const Mesh &m, const Result &a, const Result &b, size_t na, size_t eff, mc::Ctx &ctx) {
    const auto ga = groups(m, a), gb = groups(m, b);
    const auto adj = adjacency(m);
    auto both = [&]() { return "; without: " + show(a) + " with: " + show(b); };
    if (a.lidx != b.lidx || a.lines != b.lines) ctx.fail("correction changes the exported lines" + both());
    for (size_t k = 0; k < na; ++k)
      if (gb.size() <= k || ga[k] != gb[k]) ctx.fail("anisotropic coarse cell " + std::to_string(k) + " changed" + both());
    long prev = -1;
    std::vector<char> owned(gb.size(), 0);
    bool any = false;
    for (size_t k = na; k < ga.size(); ++k) {
      if (ga[k].size() <= eff) {
        any = true;
        bool iso_neigh = false;
        for (auto x : ga[k])
          for (auto y : adj[x])
            if (a.f2c[y] != k && a.f2c[y] >= na) iso_neigh = true;
        if (!iso_neigh) {
          ctx.count(c_left);
          if (gb[b.f2c[ga[k][0]]] != ga[k]) ctx.fail("singular coarse cell " + std::to_string(k) + " without isotropic neighbours changed" + both());
        } else {
          for (auto x : ga[k])
            if (b.f2c[x] < na) ctx.fail("cell " + std::to_string(x) + " moved into an anisotropic coarse cell" + both());
          for (auto x : ga[k])
            if (b.f2c[x] != b.f2c[ga[k][0]]) {
              ctx.count(c_split);
              break;
            }
        }
        continue;
      }
      const long id = static_cast<long>(b.f2c[ga[k][0]]);
      for (auto x : ga[k])
        if (static_cast<long>(b.f2c[x]) != id) ctx.fail("non-singular coarse cell " + std::to_string(k) + " was split" + both());
      if (id <= prev) ctx.fail("non-singular coarse cells merged or reordered" + both());
      prev = id;
    }
    for (size_t k = na; k < gb.size(); ++k)
      if (gb[k].size() <= eff)
        for (auto x : gb[k])
          for (auto y : adj[x])
            if (b.f2c[y] != k && b.f2c[y] >= na) ctx.fail("coarse cell " + std::to_string(k) + " is still singular next to an isotropic coarse cell" + both());
    if (!any && a.f2c != b.f2c) ctx.fail("correction changed a result without singular cells" + both());
    cover(ctx, m, b, gb);
    ctx.trace(2);
    ctx.count(any ? c_pairs : c_same, any ? (a.f2c != b.f2c) : 1);
  };
  auto f = [=](const Mesh &m, const Config &g0, mc::Ctx &ctx) {
    Config g = g0;
    g.corr = false;
    const auto a = call(m, g);
    g.corr = true;
    const auto b = call(m, g);
    judge(m, a, b, n_aniso(g, a), static_cast<size_t>(g.thresh >= g.min ? g.min - 1 : g.thresh), ctx);
  };
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o)) sp.push_back(as_space(u, f));
  {
    // Thresholds just below large minimum cardinalities leave multi-cell
    // singular pieces
    const std::vector<Card> cs{{4, 4, 4}, {5, 5, 5}, {6, 4, 6}, {3, 3, 4}, {5, 4, 6}};
    const u64 nm = o.thorough ? 4095 : 511;
    const Radix r{nm, cs.size(), 4, 2, 6};
    const bool T = o.thorough;
    sp.push_back(as_space({"thresholds", "all subsets of a 3x3 (3x4 thorough) grid x 5 cardinality triples x 4 seed orderings x 2 neighbourhoods x thresholds 1..6", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = T ? grid(3, 4, 1, d[0] + 1, 0, 0, 0) : grid(3, 3, 1, d[0] + 1, 0, 0, 0);
                             set_card(g, cs[d[1]]);
                             g.seed = kSeeds[d[2]];
                             g.neigh = d[3];
                             set_corr(g, d[4] + 1);
                           }}, f));
  }
  sp.push_back(partition_space(5, labelled_graphs(5), 2, 3, judge));
  sp.push_back(partition_space(6, kGraphs6, 1, 3, judge));
  if (o.thorough) sp.push_back(partition_space(7, kGraphs7, 0, 3, judge));
  mc::Options opt;
  opt.property = "P04";
  opt.rule = "relation between the results of the same call without and with correction";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells) of the corrected runs";
  opt.transitions_meaning = "coarse cells of the corrected runs";
  opt.traces_meaning = "implementation runs compared (two per pair)";
  return mc::drive(argc, argv, opt, sp);
}
