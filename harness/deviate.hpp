// Calls that deviate from a base configuration in a bounded number of settings
// and attributes: all deviations up to the bound are enumerated.
#pragma once
#include "mesh.hpp"

namespace vf {

using Deviations = std::vector<std::vector<unsigned char>>;

// All vectors below dims with at most t entries different from zero
inline std::shared_ptr<Deviations> deviations(const std::vector<int> &dims, int t) {
  auto out = std::make_shared<Deviations>();
  std::vector<unsigned char> cur(dims.size(), 0);
  std::function<void(size_t, int)> rec = [&](size_t p, int left) {
    if (p == dims.size()) {
      out->push_back(cur);
      return;
    }
    rec(p + 1, left);
    if (left)
      for (int v = 1; v < dims[p]; ++v) {
        cur[p] = static_cast<unsigned char>(v);
        rec(p + 1, left - 1);
        cur[p] = 0;
      }
  };
  rec(0, t);
  return out;
}

// Adjacency of shapes other than boxes
inline Mesh shape(int n, int dim, const std::function<bool(int, int)> &edge) {
  Mesh m;
  std::vector<std::vector<UL>> adj(n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j && (edge(i, j) || edge(j, i))) adj[i].push_back(j);
  set_graph(m, adj, [](UL a, UL b) { return 1. + static_cast<double>((a + b) % 4 == 1 ? 7 : (a + b) % 3); });
  m.dim = dim;
  for (int i = 0; i < n; ++i) {
    m.c.push_back({static_cast<double>(i % 4), static_cast<double>(i / 4)});
    if (dim == 3) m.c.back().push_back(static_cast<double>(i * 3 % 5));
    m.vol.push_back(1.);
    m.prio.push_back(1.);
    m.nbnd.push_back(std::max(0, 2 * dim - static_cast<int>(adj[i].size())));
  }
  return m;
}
constexpr int kDevMeshes = 15, kDevStretched = 12;
inline Mesh dev_mesh(int k) {
  const u64 all = ~u64{0};
  switch (k) {
    case 0: return grid(3, 3, 1, all, 0, 0, 0);
    case 1: return grid(4, 4, 1, all, 0, 0, 0);
    case 2: return grid(5, 3, 1, all, 4, 0, 0);
    case 3: return grid(2, 2, 3, all, 0, 0, 0);
    case 4: return grid(3, 3, 3, all, 0, 0, 0);
    case 5: return shape(9, 2, [](int i, int j) { return i == 4 && j != 4; });
    case 6: return shape(7, 2, [](int, int) { return true; });
    case 7: return shape(10, 3, [](int i, int j) { return j == (i + 1) % 10; });
    case 8: return shape(15, 2, [](int i, int j) { return j == 2 * i + 1 || j == 2 * i + 2; });
    case 9: return grid(5, 3, 1, 0x6F7B, 0, 0, 0);  // two pieces
    case 10: return grid(12, 1, 1, all, 2, 0, 0);
    case 11: return shape(14, 2, [](int i, int j) { return j == i + 1 || j == i + 2; });
    case 12: return shape(9, 2, [](int i, int j) { return i == 0 || (j == i + 1) || (i == 8 && j == 1); });
    case 13: return shape(8, 3, [](int i, int j) { return i < 3 && j >= 3; });
    default: return shape(18, 3, [](int i, int j) { return j == (i + 1) % 18 || j == (i + 4) % 18 || j == (i + 7) % 18; });
  }
}
inline Mesh dev_stretched(int k) {
  const u64 all = ~u64{0};
  switch (k) {
    case 0: return grid(3, 4, 1, all, 1, 0, 0);
    case 1: return grid(4, 4, 1, all, 4, 0, 0);
    case 2: return grid(2, 7, 1, all, 1, 0, 0);
    case 3: return grid(6, 3, 1, all, 2, 0, 0);
    case 4: return grid(2, 2, 4, all, 1, 0, 0);
    case 5: return grid(3, 3, 2, all, 4, 0, 0);
    case 6: return grid(3, 5, 1, all, 3, 0, 0);
    case 7: return grid(3, 5, 1, 0x5B6D, 1, 0, 0);  // two pieces and gaps
    case 8: return dev_mesh(10);
    case 9: return dev_mesh(11);
    case 10: return dev_mesh(12);
    default: return dev_mesh(8);
  }
}

// Attribute patterns of any mesh; pattern 0 leaves it as it is
constexpr int kDevPrio = 9, kDevBnd = 5, kDevWeight = 6, kDevGeo = 6, kDevSelf = 3;
inline void dress(Mesh &m, int prio, int bnd, int weight, int geo, int self) {
  const long n = static_cast<long>(m.n());
  for (long i = 0; i < n; ++i) {
    double &p = m.prio[i];
    switch (prio) {
      case 1: p = static_cast<double>(i); break;
      case 2: p = static_cast<double>(-i); break;
      case 3: p = static_cast<double>(i * 5 % 7); break;
      case 4: p = -1.; break;
      case 5: p = 1048576. * static_cast<double>(i % 3); break;
      case 6: p = 0.25 * static_cast<double>(i % 4) - 0.5; break;
      case 7: p = static_cast<double>(i == n / 2 ? 3 : i == n - 1 ? 3 : 0); break;
      case 8: p = 1073741824. + static_cast<double>(i * 5 % 7); break;  // beyond single precision
      default: break;
    }
    int &b = m.nbnd[i];
    switch (bnd) {
      case 1: b = 0; break;
      case 2: b = static_cast<int>(i % 5); break;
      case 3: b = i == n - 1 ? m.dim : 0; break;
      case 4: b = static_cast<int>((n - i) % 3); break;
      default: break;
    }
    if (weight)
      for (UL e = m.row[i]; e < m.row[i + 1]; ++e) {
        const long a = std::min<long>(i, static_cast<long>(m.col[e])), c = std::max<long>(i, static_cast<long>(m.col[e]));
        double &w = m.w[e];
        switch (weight) {
          case 1: w = 1.; break;
          case 2: w = 1. + static_cast<double>((a + c) % 3); break;
          case 3: w = 0.25 + static_cast<double>(a * c % 4); break;
          case 4: w *= 1048576.; break;
          default: w = 1. + static_cast<double>((a * 3 + c) % 5) / 1073741824.; break;
        }
      }
    auto &x = m.c[i];
    switch (geo) {
      case 1: m.vol[i] = 1. + 0.5 * static_cast<double>(i % 3); break;
      case 2:
        x[0] = static_cast<double>(i * 7 % 11);
        x[1] = static_cast<double>(i * 3 % 13);
        if (m.dim == 3) x[2] = static_cast<double>(i % 5);
        break;
      case 3:
        for (auto &y : x) y = -y - 128.;
        break;
      case 4:
      case 5: {
        const double s = geo == 4 ? 1099511627776. : 1. / 1099511627776.;
        for (auto &y : x) y *= s;
        m.vol[i] *= m.dim == 2 ? s * s : s * s * s;
        break;
      }
      default: break;
    }
  }
  if (self) {
    std::vector<UL> row{0}, col;
    std::vector<double> w;
    for (long i = 0; i < n; ++i) {
      for (UL e = m.row[i]; e < m.row[i + 1]; ++e) {
        col.push_back(m.col[e]);
        w.push_back(m.w[e]);
      }
      if (self == 1 || i % 2) {
        col.push_back(static_cast<UL>(i));
        w.push_back(2.);
      }
      row.push_back(col.size());
    }
    m.row = row;
    m.col = col;
    m.w = w;
  }
}

// Sets of lines for any mesh
constexpr int kDevLines = 10;
inline std::vector<std::vector<UL>> dev_lines(const Mesh &m, int k) {
  struct Way { size_t lines, length; bool down, last, turned; };
  static const Way ways[kDevLines] = {{99, 99, false, false, false}, {1, 99, false, false, false}, {2, 3, false, true, false}, {99, 2, true, false, false}, {99, 3, false, true, true},
                                      {4, 4, true, true, false}, {3, 5, false, false, true}, {99, 1, false, false, false}, {99, 0, false, false, false}, {0, 0, false, false, false}};
  static const size_t cycle[5] = {1, 4, 2, 5, 3};
  const auto &w = ways[k];
  const auto adj = adjacency(m);
  std::vector<char> used(m.n(), 0);
  std::vector<std::vector<UL>> out;
  for (UL q = 0; q < m.n() && out.size() < w.lines; ++q) {
    UL x = w.down ? m.n() - 1 - q : q;
    if (used[x]) continue;
    const size_t cap = w.length ? w.length : cycle[out.size() % 5];
    std::vector<UL> l;
    for (;;) {
      l.push_back(x);
      used[x] = 1;
      if (l.size() >= cap) break;
      bool found = false;
      UL y = 0;
      for (auto z : adj[x])
        if (!used[z] && (!found || w.last)) {
          y = z;
          found = true;
        }
      if (!found) break;
      x = y;
    }
    if (w.turned) std::reverse(l.begin(), l.end());
    out.push_back(l);
  }
  return out;
}

inline const std::vector<Card> &dev_cards() {
  static const std::vector<Card> c{{4, 2, 5}, {2, 2, 2}, {3, 3, 3}, {3, 2, 6}, {5, 5, 6}, {5, 2, 8}, {7, 4, 7}, {8, 6, 10}, {9, 3, 12}, {12, 8, 16}, {20, 2, 30}, {2, 2, 5}, {6, 5, 7}, {4, 3, 7}};
  return c;
}
// Settings shared by all calls, then attributes; v holds values, not deviations
inline std::vector<int> dev_dims(size_t n_corr) {
  return {4, kNAR, 2, 4, static_cast<int>(dev_cards().size()), static_cast<int>(n_corr), kDevPrio, kDevBnd, kDevWeight, kDevGeo, kDevSelf};
}
inline void dev_settings(Config &g, const std::vector<int> &v, const std::vector<int> &corr) {
  g.seed = kSeeds[v[0]];
  g.ar = v[1];
  g.neigh = v[2];
  set_card(g, dev_cards()[v[4]]);
  g.fc_iter = g.max > 12 ? std::min(v[3] + 1, 2) : v[3] + 1;
  set_corr(g, corr[v[5]]);
}
inline std::vector<int> dev_corr(std::vector<int> corr) {
  if (corr.size() > 1)
    for (int k : {3, 4, 6})
      if (std::find(corr.begin(), corr.end(), k) == corr.end()) corr.push_back(k);
  return corr;
}
// Values of a deviation from base b
inline std::vector<int> dev_values(const std::vector<unsigned char> &d, const std::vector<int> &dims, int b) {
  std::vector<int> v(d.size());
  for (size_t k = 0; k < d.size(); ++k) v[k] = (d[k] + b * static_cast<int>(k + 1)) % dims[k];
  return v;
}

// kind: 0 isotropic, 1 built lines, 2 provided lines
inline Gen dev_gen(int kind, int bound, int bases, const std::vector<int> &corr0, bool self = true) {
  const auto corr = dev_corr(corr0);
  auto dims = dev_dims(corr.size());
  if (!self) dims[10] = 1;
  if (kind == 1)
    for (int k : {6, 10, 2, 2, 2, 9}) dims.push_back(k);
  if (kind == 2)
    for (int k : {10, 2, kDevLines}) dims.push_back(k);
  const auto all = deviations(dims, bound);
  const int nm = kind == 1 ? kDevStretched : kDevMeshes;
  const mc::Radix r{all->size(), static_cast<u64>(nm), static_cast<u64>(bases)};
  static const char *const nouns[3] = {"dev", "andev", "linesdev"};
  return {nouns[kind],
          std::to_string(nm) + (kind == 1 ? " stretched and irregular meshes" : " meshes (boxes, star, complete, ring, tree, strip, wheel, bipartite, circulant, two pieces)") + " x " + std::to_string(bases)
            + " base configurations x all deviations (" + std::to_string(all->size()) + ") in at most " + std::to_string(bound)
            + " of: seed ordering, aspect ratio, neighbourhood, look-ahead, cardinalities, correction, priorities, boundary counts, weights, geometry" + (self ? ", self entries" : "")
            + (kind == 1 ? ", anisotropy threshold, line limit, coupling, direction flag, odd flag, compliant cells" : kind == 2 ? ", line limit, odd flag, lines" : ""),
          r.total(), [=](u64 i, Mesh &m, Config &g) {
            const auto q = r.decode(i);
            const int mesh = static_cast<int>(q[1]);
            const auto v = dev_values((*all)[q[0]], dims, static_cast<int>(q[2]) * 3 + mesh % 3);
            m = kind == 1 ? dev_stretched(mesh) : dev_mesh(mesh);
            dev_settings(g, v, corr);
            const bool by_distance = kind == 1 && v[13] == 1;
            dress(m, v[6], v[7], v[8], v[9], by_distance ? 0 : v[10]);
            g.aniso = kind > 0;
            g.build = kind < 2;
            if (kind == 1) {
              static const double thr[6] = {1.5, 4., 1., 0.25, -1., 20.};
              g.athr = thr[v[11]];
              g.maxc = v[12] ? std::optional<int>(v[12] == 9 ? 12 : v[12]) : std::nullopt;
              g.coupling = v[13];
              g.dir = !v[14];
              g.odd = !v[15];
              auto &c = g.compliant;
              const UL n = m.n();
              for (UL x = 0; x < n; ++x) {
                const bool in = v[16] == 1 ? x % 2 == 0 : v[16] == 2 ? x < n / 2 : v[16] == 5 ? x == 0 : v[16] == 6 ? x != n / 2 : v[16] == 7 ? x % 3 != 1 : v[16] != 8;
                if (in) c.push_back(x);
              }
              if (v[16] == 3 || v[16] == 7) std::reverse(c.begin(), c.end());
              if (v[16] == 4) {
                const auto twice = c;
                c.insert(c.end(), twice.begin(), twice.end());
              }
            }
            if (kind == 2) {
              g.maxc = v[11] ? std::optional<int>(v[11] == 9 ? 12 : v[11]) : std::nullopt;
              g.odd = !v[12];
              g.lidx.assign(1, 0);
              for (const auto &l : dev_lines(m, v[13])) {
                g.lines.insert(g.lines.end(), l.begin(), l.end());
                g.lidx.push_back(g.lines.size());
              }
              if (g.lines.empty()) g.lidx.clear();
            }
          }};
}

}  // namespace vf
