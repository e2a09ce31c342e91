#include "model.hpp"
using namespace vf;
int main(int argc, char **argv) {
  const int c_l = mc::counter("exported lines"), c_3 = mc::counter("three-cell coarse cells"), c_cut = mc::counter("lines reaching the maximum"),
            c_none = mc::counter("runs without anisotropic cells");
  UOpt o;
  o.giant = true;
  o.thorough = mc::is_thorough();
  o.corr = {0, 1};
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const auto r = call(m, g);
    const auto gr = groups(m, r);
    const auto adj = adjacency(m);
    auto bad = [&](const std::string &s) { ctx.fail(s + "; " + show(r)); };
    bool amb = false;
    std::vector<char> ok(m.n(), 0);
    size_t usable = 0;
    std::vector<size_t> lengths;
    if (g.build) {
      ok = anisotropic_cells(m, g, amb);
    } else {
      for (size_t k = 0; k + 1 < g.lidx.size(); ++k)
        if (g.lidx[k + 1] - g.lidx[k] > 1) {
          ++usable;
          lengths.push_back(g.lidx[k + 1] - g.lidx[k]);
          for (UL q = g.lidx[k]; q < g.lidx[k + 1]; ++q) ok[g.lines[q]] = 1;
        }
    }
    if (r.lidx.empty()) {
      if (!r.lines.empty()) bad("lines without offsets");
      ctx.count(c_none);
    } else {
      if (r.lidx.front() != 0 || r.lidx.back() != r.lines.size() || r.lidx.size() < 2) bad("malformed offsets");
      for (size_t k = 0; k < r.lines.size(); ++k)
        if (r.lines[k] != k) bad("anisotropic coarse cells are not listed once, in order, from 0");
      if (r.lines.size() > gr.size()) bad("too many anisotropic coarse cells");
      if (!g.build && r.lidx.size() != usable + 1) bad("number of lines not kept");
      for (size_t l = 0; l + 1 < r.lidx.size(); ++l) {
        if (r.lidx[l + 1] < r.lidx[l]) bad("decreasing offsets");
        size_t fine = 0;
        for (UL q = r.lidx[l]; q < r.lidx[l + 1]; ++q) {
          const auto &cc = gr[r.lines[q]];
          fine += cc.size();
          const bool last = q + 1 == r.lidx[l + 1];
          if (cc.size() != 2 && !(cc.size() == 3 && last && g.odd)) bad("anisotropic coarse cell " + std::to_string(q) + " has a wrong size");
          if (cc.size() == 3) ctx.count(c_3);
          for (auto x : cc)
            if (!ok[x] && !amb) bad("cell " + std::to_string(x) + " should not be in a line");
          if (!last) {
            const auto &nx = gr[r.lines[q + 1]];
            bool touch = false;
            for (auto x : cc)
              for (auto y : adj[x])
                if (std::find(nx.begin(), nx.end(), y) != nx.end()) touch = true;
            if (!touch) bad("consecutive coarse cells of a line do not touch");
          }
        }
        if (g.maxc && *g.maxc > 0) {
          if (fine > static_cast<size_t>(*g.maxc)) bad("line " + std::to_string(l) + " takes more cells than the maximum");
          if (fine == static_cast<size_t>(*g.maxc)) ctx.count(c_cut);
        }
        if (!g.maxc && !g.build) {
          // l-th usable provided line
          const size_t len = lengths.at(l);
          if (fine + 1 < len || (g.odd && fine != len)) bad("cells of line " + std::to_string(l) + " left out");
        }
        ctx.count(c_l);
      }
    }
    cover(ctx, m, r, gr);
    ctx.trace();
  };
  std::vector<mc::Space> sp;
  for (const auto &u : aniso_universe(o)) sp.push_back(as_space(u, f));
  for (const auto &u : lines_universe(o)) sp.push_back(as_space(u, f));
  mc::Options opt;
  opt.property = "P05";
  opt.rule = "structural relation between exported lines, fine-to-coarse map, compliant cells, threshold and limits";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs whose complete result was judged";
  return mc::drive(argc, argv, opt, sp);
}
