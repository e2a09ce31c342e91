// Replays whole runs: the queue of starting cells and the growth from each.
#pragma once
#include "explain.hpp"
#include "model.hpp"
#include "pool.hpp"

namespace vf {

// Must be called before the exploration starts. Predicts every starting cell;
// with exact_size also which of the sizes passed through is kept.
inline std::function<void(const Mesh &, const Config &, mc::Ctx &)> queue_run(bool exact_size) {
  const int c_seed = mc::counter("starting cells predicted"), c_line = mc::counter("runs starting next to lines"), c_amb = mc::counter("runs with lines that hinge on rounding (skipped)"),
            c_many = mc::counter("starting cells chosen among several left"), c_grow = mc::counter("coarse cells explained from the predicted cell"), c_far = mc::counter("queued cells beyond the searched distance");
  return [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    bool self = false;
    for (UL i = 0; i < m.n(); ++i)
      for (UL k = m.row[i]; k < m.row[i + 1]; ++k) self = self || m.col[k] == i;
    std::vector<int> nb;
    for (auto b : m.nbnd) nb.push_back(std::min(b, m.dim));
    Mesh capped = m;
    capped.nbnd = nb;
    const Geo q(capped);
    const auto adj = adjacency(m);
    Pool pool{nb, m.prio, g.seed == CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY || g.seed == CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT,
              g.seed == CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT || g.seed == CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT, {}, {}};
    // two hubs sharing many cells: too many equal orders of growth for large coarse cells
    size_t hubs = 0;
    for (const auto &a : adj) hubs += a.size() > 16;
    const bool grow = !self && (hubs < 2 || g.max <= 12);
    std::vector<bool> agg(m.n(), false);
    size_t na = 0;
    Paired p;
    if (g.aniso) {
      std::vector<std::vector<UL>> ls;
      if (g.build) {
        if (self && (g.coupling == 1 || g.athr < 0)) return;
        const auto L = build_lines(m, g);
        if (L.ambiguous) {
          ctx.count(c_amb);
          return;
        }
        ls = L.v;
      } else {
        for (size_t k = 0; k + 1 < g.lidx.size(); ++k) ls.emplace_back(g.lines.begin() + static_cast<long>(g.lidx[k]), g.lines.begin() + static_cast<long>(g.lidx[k + 1]));
      }
      p = pair_lines(m, g, ls);
    }
    if (p.lidx.empty()) {
      pool.initialize();
    } else {
      ctx.count(c_line);
      na = p.ccs.size();
      for (const auto &c : p.ccs)
        for (auto x : c) agg[x] = true;
      std::vector<UL> next;
      for (const auto &c : p.ordered)
        for (auto x : c)
          for (UL k = m.row[x]; k < m.row[x + 1]; ++k)
            if (!agg[m.col[k]]) next.push_back(m.col[k]);
      if (!next.empty()) {
        pool.cur = nb[next.front()];
        pool.insert(next);
      }
      const auto h = pool.highest(agg);
      if (next.empty() || (!pool.neigh && h && *h > *pool.cur)) {
        if (!next.empty()) pool.cur = h;
        pool.initialize();
      }
    }
    const auto r = call(m, g);
    const auto gr = groups(m, r);
    cover(ctx, m, r, gr);
    ctx.trace();
    for (size_t k = na; k < gr.size(); ++k) {
      const auto s = pool.choose(agg);
      if (!s) return ctx.fail("no cell left for coarse cell " + std::to_string(k) + "; " + show(r));
      ctx.count(c_seed);
      size_t left = 0;
      for (UL i = 0; i < m.n(); ++i) left += !agg[i];
      if (left > gr[k].size()) ctx.count(c_many);
      if (std::find(gr[k].begin(), gr[k].end(), *s) == gr[k].end()) return ctx.fail("coarse cell " + std::to_string(k) + " = " + str(gr[k]) + " should have been grown from cell " + std::to_string(*s) + "; " + show(r));
      std::vector<char> free(m.n(), 1);
      for (UL i = 0; i < m.n(); ++i) free[i] = !agg[i];
      if (grow) {
        Growth w{q, adj, g, {gr[k].begin(), gr[k].end()}, {}, *s};
        w.exact_size = exact_size;
        if (!w.explains(free)) return ctx.fail("coarse cell " + std::to_string(k) + " = " + str(gr[k]) + " is not what " + (exact_size ? "is kept of what " : "") + "grows from cell " + std::to_string(*s) + "; " + show(r));
        ctx.count(c_grow);
      }
      const auto dist = reach(adj, free, *s, std::max(m.dim == 2 ? 2 : 3, g.max / m.dim), g.max);
      for (auto x : gr[k]) agg[x] = true;
      std::map<int, std::vector<UL>> by;
      for (auto x : gr[k])
        for (auto y : adj[x])
          if (!agg[y]) {
            const int d = dist.count(y) ? dist.at(y) : 1 << 20;
            auto &v = by[d];
            if (std::find(v.begin(), v.end(), y) == v.end()) v.push_back(y);
            if (!dist.count(y)) ctx.count(c_far);
          }
      for (const auto &b : by) pool.insert_group(b.second);
    }
  };
}
}  // namespace vf
