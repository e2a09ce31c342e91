// Reference models.
#pragma once
#include "universe.hpp"

namespace vf {

constexpr double kTie = 1e-9;

struct Lines {
  bool ambiguous = false;  // some decision hinges on rounding
  std::vector<std::vector<UL>> v;
};

inline double sqdist(const std::vector<double> &a, const std::vector<double> &b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return s;
}

// Cells that are compliant and above the threshold (self entries ignored)
inline std::vector<char> anisotropic_cells(const Mesh &m, const Config &g, bool &amb) {
  std::vector<char> an(m.n(), 0);
  const double t = (g.athr > 1 || g.athr < 0) ? g.athr : 1. / g.athr;
  for (auto i : g.compliant) {
    if (g.athr < 0) {
      an[i] = 1;
      continue;
    }
    double mx = 0, mn = 0;
    bool first = true;
    for (UL k = m.row[i]; k < m.row[i + 1]; ++k)
      if (m.col[k] != i) {
        mx = first ? m.w[k] : std::max(mx, m.w[k]);
        mn = first ? m.w[k] : std::min(mn, m.w[k]);
        first = false;
      }
    if (first) continue;
    const double ar = m.dim == 2 ? mx / mn : std::sqrt(mx / mn);
    if (ar != t && std::abs(ar - t) < kTie * t) amb = true;
    an[i] = ar >= t;
  }
  return an;
}

// Line building as documented. Self entries must not be present unless the
// coupling is by weight with a non-negative threshold.
inline Lines build_lines(const Mesh &m, const Config &g) {
  Lines L;
  const size_t n = m.n();
  auto todo = anisotropic_cells(m, g, L.ambiguous);
  std::vector<double> w(m.col.size());
  for (UL i = 0; i < n; ++i)
    for (UL k = m.row[i]; k < m.row[i + 1]; ++k)
      w[k] = m.col[k] == i ? 0. : g.coupling == 1 ? 1. / sqdist(m.c[i], m.c[m.col[k]]) : m.w[k];
  std::vector<double> wmax(n, 0.);
  for (UL i = 0; i < n; ++i)
    for (UL k = m.row[i]; k < m.row[i + 1]; ++k) wmax[i] = std::max(wmax[i], w[k]);
  auto high = [&](UL i, UL k) {
    if (10. * w[k] != 9. * wmax[i] && std::abs(w[k] - 0.9 * wmax[i]) < kTie * wmax[i]) L.ambiguous = true;
    return 10. * w[k] > 9. * wmax[i];
  };
  auto unit = [&](UL from, UL to) {
    std::vector<double> d(m.c[from].size());
    double s = 0;
    for (size_t x = 0; x < d.size(); ++x) {
      d[x] = m.c[to][x] - m.c[from][x];
      s += d[x] * d[x];
    }
    for (auto &x : d) x /= std::sqrt(s);
    return d;
  };
  // best candidate: largest value, then lower index
  auto best = [&](const std::vector<std::pair<double, UL>> &cand, bool exact) -> long {
    long b = -1;
    double v = 0;
    for (const auto &[val, j] : cand)
      if (b < 0 || val > v || (val == v && static_cast<long>(j) < b)) {
        b = static_cast<long>(j);
        v = val;
      }
    for (const auto &[val, j] : cand)
      if ((val != v || (!exact && static_cast<long>(j) != b)) && std::abs(val - v) < kTie * std::abs(v)) L.ambiguous = true;
    return b;
  };
  std::vector<UL> order;
  for (UL i = 0; i < n; ++i)
    if (todo[i]) order.push_back(i);
  std::stable_sort(order.begin(), order.end(), [&](UL a, UL b) { return m.prio[a] > m.prio[b]; });
  const double cos20 = std::cos(20. * std::acos(-1.) / 180.);
  for (auto s : order) {
    if (!todo[s]) continue;
    std::deque<UL> line{s};
    todo[s] = 0;
    std::vector<double> dir0;
    for (int side = 0; side < 2; ++side) {
      UL cur = s;
      std::vector<double> dir;
      if (side == 1) {
        if (line.size() == 1) break;
        for (auto x : dir0) dir.push_back(-x);
      }
      for (;;) {
        long nx = -1;
        if (!g.dir || dir.empty()) {
          std::vector<std::pair<double, UL>> cand;
          for (UL k = m.row[cur]; k < m.row[cur + 1]; ++k)
            if (todo[m.col[k]] && high(cur, k)) cand.emplace_back(w[k], m.col[k]);
          nx = best(cand, m.exact || g.coupling == 0);
        } else {
          for (int strong = 1; strong >= 0 && nx < 0; --strong) {
            std::vector<std::pair<double, UL>> cand;
            for (UL k = m.row[cur]; k < m.row[cur + 1]; ++k) {
              if (!todo[m.col[k]] || (strong && !high(cur, k))) continue;
              const auto d = unit(cur, m.col[k]);
              double dot = 0;
              for (size_t x = 0; x < d.size(); ++x) dot += d[x] * dir[x];
              if (std::abs(dot - cos20) < kTie) L.ambiguous = true;
              if (dot >= cos20) cand.emplace_back(dot, m.col[k]);
            }
            nx = best(cand, false);
          }
        }
        if (nx < 0) break;
        const UL to = static_cast<UL>(nx);
        if (side == 0)
          line.push_back(to);
        else
          line.push_front(to);
        todo[to] = 0;
        dir = unit(cur, to);
        if (dir0.empty()) dir0 = dir;
        cur = to;
      }
    }
    if (line.size() > 1) L.v.emplace_back(line.begin(), line.end());
  }
  return L;
}

struct Paired {
  std::vector<std::vector<UL>> ccs;      // sorted
  std::vector<std::vector<UL>> ordered;  // the same in line order
  std::vector<UL> lidx, lines;
};

// Pairing of the cells of each line
inline Paired pair_lines(const Mesh &m, const Config &g, const std::vector<std::vector<UL>> &lines) {
  Paired p;
  auto bnd = [&](UL i) { return std::min(m.nbnd[i], m.dim); };
  bool usable = false;
  for (auto l : lines) {
    if (l.size() < 2) continue;
    if (!usable) p.lidx.push_back(0);
    usable = true;
    const UL a = l.front(), b = l.back();
    const bool fwd = bnd(a) != bnd(b) ? bnd(a) > bnd(b) : m.prio[a] != m.prio[b] ? m.prio[a] > m.prio[b] : a < b;
    if (!fwd) std::reverse(l.begin(), l.end());
    size_t len = l.size();
    if (g.maxc && *g.maxc > 0) len = std::min<size_t>(len, static_cast<size_t>(*g.maxc));
    if (g.maxc && *g.maxc <= 0 && !g.build) len = 0;
    const size_t pairs = len / 2;
    for (size_t q = 0; q < pairs; ++q) {
      std::vector<UL> cc{l[2 * q], l[2 * q + 1]};
      if (q + 1 == pairs && len % 2 && g.odd) cc.push_back(l[2 * q + 2]);
      p.ordered.push_back(cc);
      std::sort(cc.begin(), cc.end());
      p.lines.push_back(p.ccs.size());
      p.ccs.push_back(cc);
    }
    p.lidx.push_back(p.lines.size());
  }
  return p;
}

// Judges the anisotropic part of a result against the model
inline void judge_pairs(const Mesh &m, const Config &g, const Result &r, const Paired &p) {
  const auto gr = groups(m, r);
  auto bad = [&](const std::string &s) {
    std::string e = s + "; got " + show(r) + " expected lidx=" + str(p.lidx) + " lines=" + str(p.lines) + " ccs=";
    for (const auto &c : p.ccs) e += str(c);
    throw mc::CaseFail(e);
  };
  if (r.lidx != p.lidx || r.lines != p.lines) bad("exported lines differ from the model");
  for (size_t k = 0; k < p.ccs.size(); ++k)
    if (k >= gr.size() || gr[k] != p.ccs[k]) bad("anisotropic coarse cell " + std::to_string(k) + " differs from the model");
}

}  // namespace vf
