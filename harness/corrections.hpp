// Corrections applied to every ordered partition of a graph into connected
// coarse cells, independently of what the agglomeration would produce.
#pragma once
#include "universe.hpp"

namespace vf {

// all the maps of n cells onto 0..k-1, k = 1..n
inline std::vector<std::vector<UL>> ordered_partitions(int n) {
  std::vector<std::vector<UL>> out;
  std::vector<UL> l(n, 0);
  for (;;) {
    UL top = 0, seen = 0;
    for (auto x : l) {
      top = std::max(top, x);
      seen |= 1UL << x;
    }
    if (seen == (1UL << (top + 1)) - 1) out.push_back(l);
    int k = n - 1;
    while (k >= 0 && l[k] == static_cast<UL>(n - 1)) l[k--] = 0;
    if (k < 0) return out;
    ++l[k];
  }
}

inline int inner_links(const std::vector<std::vector<UL>> &adj, const std::vector<UL> &s) {
  if (s.size() < 2) return 0;
  int best = 1 << 20;
  for (auto x : s) {
    int c = 0;
    for (auto y : adj[x]) c += std::find(s.begin(), s.end(), y) != s.end();
    best = std::min(best, c);
  }
  return best;
}

inline std::vector<std::uint32_t> labelled_graphs(int n) {
  std::vector<std::uint32_t> out;
  for (u64 b = 0; b < n_graphs(n); ++b) out.push_back(static_cast<std::uint32_t>(b));
  return out;
}

// the given coarse cells, the first na of them anisotropic, after a correction
inline bool corrected(const Mesh &m, const std::vector<std::vector<UL>> &adj, const std::vector<std::vector<UL>> &cells, size_t na, int t, Result &b, mc::Ctx &ctx) {
  auto g = std::make_shared<Dual_Graph<UL, double, int>>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
  Coarse_Cell_Container<UL, double, int> cc(g, t);
  for (size_t k = 0; k < cells.size(); ++k) cc.create_cc(std::unordered_set<UL>(cells[k].begin(), cells[k].end()), inner_links(adj, cells[k]), k < na);
  cc.correct(4);
  for (UL x = 0; x < m.n(); ++x) b.f2c.push_back(cc._fc_2_cc[x].value());
  size_t used = 0;
  for (auto x : b.f2c) used = std::max<size_t>(used, x + 1);
  if (used > cells.size()) {
    ctx.fail("identifiers beyond the number of coarse cells: " + str(b.f2c));
    return false;
  }
  std::vector<char> has(used, 0);
  for (auto x : b.f2c) has[x] = 1;
  if (std::count(has.begin(), has.end(), 0)) {
    ctx.fail("gap in the identifiers: " + str(b.f2c));
    return false;
  }
  return true;
}

// Coarse cells of the sizes of a pattern, in turn, gathered from the cells not
// yet taken, lowest (or highest) number first
inline const std::vector<std::vector<size_t>> kSizes{{1}, {2}, {1, 3}, {4, 1}, {1, 1, 5}, {6, 2}, {2, 3, 1, 7}, {9, 1, 2, 1, 3}, {12, 3, 1}};
inline std::vector<std::vector<UL>> gathered(const std::vector<std::vector<UL>> &adj, int pattern, bool last_first) {
  std::vector<std::vector<UL>> out;
  std::vector<char> taken(adj.size(), 0);
  for (UL i = 0; i < adj.size(); ++i) {
    const UL s = last_first ? adj.size() - 1 - i : i;
    if (taken[s]) continue;
    const size_t most = kSizes[pattern][out.size() % kSizes[pattern].size()];
    std::vector<UL> c{s};
    taken[s] = 1;
    for (size_t k = 0; k < c.size() && c.size() < most; ++k)
      for (auto y : adj[c[k]])
        if (!taken[y] && c.size() < most) {
          taken[y] = 1;
          c.push_back(y);
        }
    std::sort(c.begin(), c.end());
    out.push_back(c);
  }
  return out;
}

// f(mesh, before, after, number of anisotropic coarse cells, threshold, ctx)
template<class F>
mc::Space partition_space(int n, std::vector<std::uint32_t> graphs, int max_aniso, int max_thresh, F f) {
  auto parts = std::make_shared<std::vector<std::vector<UL>>>(ordered_partitions(n));
  const Radix r{graphs.size(), parts->size()};
  mc::Space s;
  s.name = "partitions" + std::to_string(n);
  s.what = "correction of every ordered partition into connected coarse cells of " + std::to_string(graphs.size()) + " graphs on " + std::to_string(n) + " nodes (" + (graphs.size() == n_graphs(n) ? "all of them" : "all up to isomorphism") + "), the first 0.." + std::to_string(max_aniso) + " of them anisotropic, thresholds 1.." +
           std::to_string(max_thresh);
  s.size = r.total();
  s.chunk = 4096;
  auto gs = std::make_shared<std::vector<std::uint32_t>>(graphs);
  auto one = [=](u64 i, mc::Ctx *ctx) {
    const auto d = r.decode(i);
    const Mesh m = small_graph(n, (*gs)[d[0]], 0);
    Result a;
    a.f2c = (*parts)[d[1]];
    const auto cells = groups(m, a);
    const auto adj = adjacency(m);
    for (const auto &s : cells)
      if (!connected(adj, s)) return std::make_pair(m, a);
    if (ctx)
      for (size_t na = 0; na <= static_cast<size_t>(max_aniso) && na < cells.size(); ++na)
        for (int t = 1; t <= max_thresh; ++t) {
          Result b;
          if (!corrected(m, adj, cells, na, t, b, *ctx)) continue;
          f(m, a, b, na, static_cast<size_t>(t), *ctx);
        }
    return std::make_pair(m, a);
  };
  s.run = [=](u64 i, mc::Ctx &ctx) { one(i, &ctx); };
  s.describe = [=](u64 i) {
    const auto p = one(i, nullptr);
    Config g;
    return "coarse cells before the correction " + str(p.second.f2c) + "\n" + describe(p.first, g);
  };
  return s;
}
}  // namespace vf
