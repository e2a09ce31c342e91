#include "model.hpp"
using namespace vf;
int main(int argc, char **argv) {
  const int c_l = mc::counter("usable provided lines"), c_iso = mc::counter("runs with unusable lines"), c_rev = mc::counter("lines taken from their back");
  const bool T = mc::is_thorough();
  UOpt o;
  o.giant = true;
  o.thorough = T;
  o.corr = {0, 1};
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    std::vector<std::vector<UL>> ls;
    for (size_t k = 0; k + 1 < g.lidx.size(); ++k) ls.emplace_back(g.lines.begin() + static_cast<long>(g.lidx[k]), g.lines.begin() + static_cast<long>(g.lidx[k + 1]));
    const auto r = call(m, g);
    const auto gr = groups(m, r);
    const auto p = pair_lines(m, g, ls);
    cover(ctx, m, r, gr);
    ctx.trace();
    for (const auto &l : ls)
      if (l.size() > 1) {
        ctx.count(c_l);
        const auto &cc0 = p.ccs;
        if (!cc0.empty() && std::find(cc0[0].begin(), cc0[0].end(), l.back()) != cc0[0].end() && l.size() > 2) ctx.count(c_rev);
      }
    if (p.lidx.empty()) {
      ctx.count(c_iso);
      Config iso = g;
      iso.aniso = false;
      const auto q = call(m, iso);
      ctx.trace();
      if (q.f2c != r.f2c) ctx.fail("unusable lines: result differs from the isotropic one; " + show(r) + " isotropic " + show(q));
      if (g.lidx.size() >= 2 && !g.lines.empty() && (!r.lidx.empty() || !r.lines.empty())) ctx.fail("unusable lines: lines exported; " + show(r));
      return;
    }
    judge_pairs(m, g, r, p);
  };
  std::vector<mc::Space> sp;
  for (const auto &u : lines_universe(o)) sp.push_back(as_space(u, f));
  {
    // All boundary vectors and priorities on a path, whole path or part of it
    const Radix r{5, 4 * 4 * 4 * 4 * 4, 3, 2, 4};
    sp.push_back(as_space({"ends", "paths of 2..5 cells plus side cell: all boundary vectors in 0..3 x 3 priorities x odd flag x limit {none,2,3,4}", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int pr[3] = {5, 2, 3}, lim[4] = {0, 2, 3, 4};
                             m = grid(1, 6, 1, 0x1F, 0, pr[d[2]], 0);
                             int b = d[1];
                             for (int q = 0; q < 5; ++q) {
                               m.nbnd[q] = b % 4;
                               b /= 4;
                             }
                             std::vector<UL> l;
                             switch (d[0]) {
                               case 0: l = {0, 1, 2, 3, 4}; break;
                               case 1: l = {3, 2, 1, 0}; break;
                               case 2: l = {2, 3, 4}; break;
                               case 3: l = {1, 0}; break;
                               default: l = {4, 3, 2, 1, 0};
                             }
                             g.aniso = true;
                             g.build = false;
                             set_lines(g, {l});
                             g.odd = d[3];
                             g.maxc = max_option(lim[d[4]]);
                             set_card(g, {2, 2, 2});
                           }}, f));
    const Radix q{64, 4, 4, 2, 3};
    sp.push_back(as_space({"unusable", "missing, empty, one-cell or empty-range lines x meshes x seed orderings x correction x compliant lists", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             m = grid(2, 3, 1, static_cast<u64>(d[0]) + 1 > 63 ? 63 : static_cast<u64>(d[0]) + 1, 1, 0, 0);
                             g.aniso = true;
                             g.build = false;
                             const UL last = m.n() - 1;
                             switch (d[1]) {
                               case 0: break;
                               case 1: g.lidx = {0}; break;
                               case 2: set_lines(g, {{0}, {last}}); break;
                               default: set_lines(g, {{}, {last}, {}}); break;
                             }
                             if (d[1] == 3 && m.n() == 1) set_lines(g, {{0}});
                             g.seed = kSeeds[d[2]];
                             set_corr(g, d[3]);
                             if (d[4] == 1) g.compliant = all_cells(m.n());
                             if (d[4] == 2) g.compliant = {0};
                             set_card(g, {3, 2, 4});
                           }}, f));
  }
  mc::Options opt;
  opt.property = "P07";
  opt.rule = "anisotropic coarse cells and exported lines equal those of the pairing model; unusable lines give the isotropic result";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs compared with the model";
  return mc::drive(argc, argv, opt, sp);
}
