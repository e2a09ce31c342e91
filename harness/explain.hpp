// Explains the coarse cells of a run by the nondeterministic growth model.
#pragma once
#include "growth.hpp"
#include "universe.hpp"

namespace vf {

// Breaks ties: distinct dyadic volumes, weights and centre offsets
inline void jitter(Mesh &m, int k) {
  const size_t n = m.n();
  for (UL i = 0; i < n; ++i) {
    m.vol[i] *= 1. + 0.125 * ((i * 5 + k) % 7);
    for (size_t x = 0; x < m.c[i].size(); ++x) m.c[i][x] += 0.0625 * static_cast<double>((i * (3 + 2 * x) + k) % 5) - 0.125;
    for (UL e = m.row[i]; e < m.row[i + 1]; ++e) {
      const UL a = std::min(i, m.col[e]), b = std::max(i, m.col[e]);
      m.w[e] *= 1. + 0.125 * ((a * 3 + b * 7 + k) % 8);
    }
  }
}


// Must be called before the exploration starts
inline std::function<void(const Mesh &, const Config &, mc::Ctx &)> explain_run() {
  const int c_cells = mc::counter("coarse cells replayed"), c_grown = mc::counter("coarse cells explained by greedy growth"),
            c_all = mc::counter("coarse cells taking all reachable cells"), c_steps = mc::counter("model growth steps"),
            c_less = mc::counter("coarse cells kept below the largest size reached"),
            c_dec = mc::counter("look-ahead choices with a single best cell");
  return [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const auto r = call(m, g);
    const auto gr = groups(m, r);
    const auto adj = adjacency(m);
    // Boundary counts above the dimension mean the dimension (property P13)
    Mesh capped = m;
    for (auto &b : capped.nbnd) b = std::min(b, m.dim);
    const Geo q(capped);
    std::vector<char> free(m.n(), 1);
    int mesh_top = 0;
    for (auto b : m.nbnd) mesh_top = std::max(mesh_top, std::min(b, m.dim));
    for (size_t k = 0; k < gr.size(); ++k) {
      ctx.count(c_cells);
      // The seed is known for the first cell and, with full initialisation,
      // as long as the top boundary level is not exhausted (property P08)
      std::vector<UL> seeds = gr[k];
      long best = -1;
      for (UL i = 0; i < m.n(); ++i)
        if (free[i] && std::min(m.nbnd[i], m.dim) == mesh_top && (best < 0 || m.prio[i] > m.prio[static_cast<UL>(best)])) best = static_cast<long>(i);
      if (best >= 0 && (k == 0 || g.seed == 0 || g.seed == 1)) seeds = {static_cast<UL>(best)};
      bool ok = false;
      for (auto s : seeds) {
        Growth w{q, adj, g, {gr[k].begin(), gr[k].end()}, {}, s};
        if (!w.target.count(s)) continue;
        ok = w.explains(free);
        ctx.count(c_steps, w.steps);
        ctx.count(c_dec, w.decided);
        if (ok) {
          ctx.count(w.max_ind ? c_grown : c_all);
          if (w.max_ind > static_cast<int>(gr[k].size())) ctx.count(c_less);
          break;
        }
      }
      if (!ok) ctx.fail("no seed and greedy choice explains coarse cell " + std::to_string(k) + " = " + str(gr[k]) + "; " + show(r));
      for (auto x : gr[k]) free[x] = 0;
    }
    cover(ctx, m, r, gr);
    ctx.trace();
  };
}
}  // namespace vf
