// The common universe of (mesh, configuration) pairs explored by the checks
// about whole agglomeration calls.
#pragma once
#include "deviate.hpp"
#include "graphs.hpp"
#include "mesh.hpp"
#include "shapes.hpp"

namespace vf {

using mc::Radix;

struct UOpt {
  bool thorough = false;
  std::vector<int> corr{0, 1, 2};     // correction levels (0 off, k threshold k)
  bool aniso = true;                  // include anisotropic spaces
  bool iso = true;
  bool big = true;
  bool giant = false;                 // include meshes of 140000 cells
  int dev = 3;                        // settings deviating together in isotropic calls
};

inline std::vector<Card> cards_small() {
  return {{2, 2, 2}, {3, 2, 4}, {4, 4, 4}, {3, 3, 3}, {4, 2, 6}, {5, 3, 5}};
}

// --- anisotropic helpers
inline std::vector<UL> subset_of(u64 bits, size_t n) {
  std::vector<UL> r;
  for (UL i = 0; i < n; ++i)
    if (bits >> i & 1) r.push_back(i);
  return r;
}
inline std::vector<UL> all_cells(size_t n) {
  std::vector<UL> r(n);
  for (UL i = 0; i < n; ++i) r[i] = i;
  return r;
}

// All sets of vertex-disjoint simple paths (each as an oriented sequence) of at
// most max_lines lines and length 1..max_len, in every order
inline std::vector<std::vector<std::vector<UL>>> line_sets(
  const std::vector<std::vector<UL>> &adj, size_t max_lines, size_t max_len, size_t cap
) {
  std::vector<std::vector<UL>> paths;
  std::vector<UL> cur;
  std::vector<char> used(adj.size(), 0);
  std::function<void()> ext = [&]() {
    paths.push_back(cur);
    if (cur.size() >= max_len) return;
    for (auto y : adj[cur.back()])
      if (!used[y]) {
        used[y] = 1;
        cur.push_back(y);
        ext();
        cur.pop_back();
        used[y] = 0;
      }
  };
  for (UL i = 0; i < adj.size(); ++i) {
    used[i] = 1;
    cur = {i};
    ext();
    used[i] = 0;
  }
  std::vector<std::vector<std::vector<UL>>> out;
  std::vector<std::vector<UL>> sel;
  std::function<void()> rec = [&]() {
    if (!sel.empty()) out.push_back(sel);
    if (sel.size() >= max_lines) return;
    for (const auto &p : paths) {
      bool ok = true;
      for (const auto &q : sel)
        for (auto x : q)
          if (std::find(p.begin(), p.end(), x) != p.end()) ok = false;
      if (!ok) continue;
      sel.push_back(p);
      rec();
      sel.pop_back();
      if (out.size() > cap) return;
    }
  };
  rec();
  if (out.size() > cap) throw std::logic_error("line_sets: bound exceeded");
  return out;
}
inline void set_lines(Config &g, const std::vector<std::vector<UL>> &ls) {
  g.lidx.assign(1, 0);
  g.lines.clear();
  for (const auto &l : ls) {
    g.lines.insert(g.lines.end(), l.begin(), l.end());
    g.lidx.push_back(g.lines.size());
  }
}

inline std::optional<int> max_option(int k) { return k == 0 ? std::optional<int>() : std::optional<int>(k); }

// Larger structured meshes
inline Mesh big_mesh(int k) {
  switch (k) {
    case 0: return grid(4, 4, 1, ~u64{0}, 0, 0, 0);
    case 1: return grid(5, 5, 1, ~u64{0}, 0, 1, 0);
    case 2: return grid(7, 6, 1, ~u64{0}, 1, 0, 0);
    case 3: return grid(8, 8, 1, ~u64{0}, 0, 0, 0, true);
    case 4: return grid(3, 3, 3, ~u64{0}, 0, 0, 0);
    case 5: return grid(3, 3, 4, ~u64{0}, 2, 2, 0, true);
    case 6: return grid(12, 1, 1, ~u64{0}, 0, 3, 0);
    case 7: return grid(5, 5, 1, 0x1F8C63FULL, 0, 0, 0);  // ring: hole in the middle
    case 8: return grid(6, 6, 1, 0xE38E07E38ULL, 0, 6, 3);  // several pieces
    case 9: return grid(5, 4, 1, ~u64{0}, 3, 5, 1);
    case 10: return grid(2, 2, 4, ~u64{0}, 0, 4, 2);
    default: return grid(6, 5, 1, ~u64{0}, 4, 3, 0);
  }
}
constexpr int kBig = 12;

// Meshes beyond the sizes enumerated completely
inline Mesh large_mesh(int k) {
  auto from = [](int n, const std::function<bool(int, int)> &edge, int dim) {
    Mesh m;
    std::vector<std::vector<UL>> adj(n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (i != j && (edge(i, j) || edge(j, i))) adj[i].push_back(j);
    set_graph(m, adj, [](UL a, UL b) { return 1. + 0.5 * static_cast<double>((a + b) % 3) + 0.25 * static_cast<double>((a * b) % 4); });
    m.dim = dim;
    for (int i = 0; i < n; ++i) {
      m.c.push_back({static_cast<double>(i * 7 % 11), static_cast<double>(i * 3 % 13)});
      if (dim == 3) m.c.back().push_back(static_cast<double>(i % 5));
      m.vol.push_back(1. + 0.5 * (i % 3));
      m.prio.push_back(static_cast<double>(i * 5 % 7));
      m.nbnd.push_back(i * 11 % 9 == 0 ? 1 + i % 4 : 0);
    }
    return m;
  };
  switch (k) {
    case 0: return grid(10, 10, 1, ~u64{0}, 0, 0, 0);
    case 1: return grid(5, 5, 5, ~u64{0}, 0, 0, 0);
    case 2: return grid(30, 1, 1, ~u64{0}, 2, 3, 0);
    case 3: return from(24, [](int i, int j) { return j == (i + 1) % 24; }, 2);                                // ring
    case 4: return from(15, [](int i, int j) { return i == 7 && j != 7; }, 3);                                 // star
    case 5: return from(10, [](int, int) { return true; }, 2);                                                 // complete
    case 6: return from(31, [](int i, int j) { return j == 2 * i + 1 || j == 2 * i + 2; }, 2);                 // binary tree
    case 7: return grid(12, 3, 1, ~u64{0}, 4, 6, 0, true);
    case 8: return from(40, [](int i, int j) { return j == (i + 1) % 40 || j == (i + 7) % 40 || j == (i + 12) % 40; }, 3);
    case 9: return from(12, [](int, int) { return false; }, 2);                                                // no edge
    case 10: return from(36, [](int i, int j) { return i / 6 == j / 6; }, 2);                                  // six separate complete pieces
    // Beyond one byte of cells, coarse cells, neighbours, pieces
    case 11: return grid(24, 24, 1, ~u64{0}, 0, 0, 0);
    case 12: return grid(9, 9, 9, ~u64{0}, 0, 0, 0);
    case 13: return grid(700, 1, 1, ~u64{0}, 2, 3, 0);
    case 14: return from(300, [](int i, int j) { return i == 150 && j != 150; }, 3);
    default: return from(600, [](int i, int j) { return i / 2 == j / 2; }, 2);
  }
}
constexpr int kLarge = 11, kHuge = 5;

inline std::vector<Gen> iso_universe(const UOpt &o) {
  std::vector<Gen> out;
  const auto cs = cards_small();
  const auto corr = o.corr;
  const int nc = static_cast<int>(corr.size());
  const bool T = o.thorough;
  for (int n = 1; n <= 4; ++n) {
    const Radix r{n_graphs(n), kGraphPatterns, 4, 2, cs.size(), 3, static_cast<u64>(nc)};
    out.push_back({"graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x 10 attribute patterns x 4 seed orderings x 2 neighbourhoods x 6 cardinality triples x look-ahead {1,2,4} x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = small_graph(n, d[0], d[1]);
                     g.seed = kSeeds[d[2]];
                     g.neigh = d[3];
                     set_card(g, cs[d[4]]);
                     g.fc_iter = d[5] == 2 ? 4 : d[5] + 1;
                     set_corr(g, corr[d[6]]);
                     g.ar = (d[1] * 3 + d[4]) % kNAR;
                   }});
  }
  {
    const std::vector<int> pats = T ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{1, 4, 5, 9};
    const Radix r{n_graphs(5), pats.size(), 4, 2, 4, 2, static_cast<u64>(nc)};
    out.push_back({"graphs5", "all labelled graphs on 5 nodes x attribute patterns x 4 seed orderings x 2 neighbourhoods x 4 cardinality triples x look-ahead {1,3} x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = small_graph(5, d[0], pats[d[1]]);
                     g.seed = kSeeds[d[2]];
                     g.neigh = d[3];
                     set_card(g, cs[d[4]]);
                     g.fc_iter = d[5] ? 3 : 1;
                     set_corr(g, corr[d[6]]);
                     g.ar = (pats[d[1]] + 2 * d[4]) % kNAR;
                   }});
  }
  if (T) {
    const Radix r{n_graphs(6), 2, 4, 2, 3, static_cast<u64>(nc)};
    out.push_back({"graphs6", "all labelled graphs on 6 nodes x 2 attribute patterns x 4 seed orderings x 2 neighbourhoods x 3 cardinality triples x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = small_graph(6, d[0], d[1] ? 4 : 9);
                     g.seed = kSeeds[d[2]];
                     g.neigh = d[3];
                     set_card(g, cs[d[4]]);
                     set_corr(g, corr[d[5]]);
                     g.ar = (d[4] * 4) % kNAR;
                   }});
  }
  for (int n = 7; n <= (T ? 8 : 7); ++n) {
    // Unlabelled graphs, every node as first seed
    const auto *gs = n == 7 ? &kGraphs7 : &kGraphs8;
    const std::vector<Card> c7{{6, 6, 7}, {4, 3, 5}, {5, 5, 5}, {3, 2, 6}};
    const Radix r{gs->size(), static_cast<u64>(n), 2, c7.size(), 2, static_cast<u64>(nc)};
    out.push_back({"graphs" + std::to_string(n) + "u", "all graphs on " + std::to_string(n) + " nodes up to isomorphism (" + std::to_string(gs->size()) + ") x every node as first seed x 2 neighbourhoods x 4 cardinality triples x 2 (attributes, look-ahead) x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = small_graph(n, (*gs)[d[0]], d[4] ? 4 : 3);
                     std::fill(m.nbnd.begin(), m.nbnd.end(), 0);
                     m.nbnd[d[1]] = m.dim;
                     g.seed = kSeeds[(d[0] + d[1]) % 4];
                     g.neigh = d[2];
                     set_card(g, c7[d[3]]);
                     g.fc_iter = d[4] ? 1 : 2;
                     set_corr(g, corr[d[5]]);
                     g.ar = (d[0] + d[3]) % kNAR;
                   }});
  }
  {
    const std::vector<Card> c3{{2, 2, 3}, {4, 2, 5}, {4, 4, 4}, {3, 2, 3}, {6, 4, 6}};
    const Radix r{511, 3, 4, 2, c3.size(), 2, static_cast<u64>(nc)};
    out.push_back({"sub3x3", "all non-empty cell subsets of a 3x3 grid x 3 geometries x 4 seed orderings x 2 neighbourhoods x 5 cardinality triples x look-ahead {1,2} x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int geo[3] = {0, 2, 3}, pr[3] = {0, 2, 3}, bn[3] = {0, 3, 1};
                     m = grid(3, 3, 1, d[0] + 1, geo[d[1]], pr[d[1]], bn[d[1]], d[1] == 1);
                     g.seed = kSeeds[d[2]];
                     g.neigh = d[3];
                     set_card(g, c3[d[4]]);
                     g.fc_iter = d[5] + 1;
                     set_corr(g, corr[d[6]]);
                   }});
    const Radix ra{511, 2, kNAR, 2, 2, 2};
    out.push_back({"sub3x3ar", "all non-empty cell subsets of a 3x3 grid x 2 geometries x 10 aspect ratios x 2 neighbourhoods x 2 cardinality triples x look-ahead {1,3}",
                   ra.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = ra.decode(i);
                     m = grid(3, 3, 1, d[0] + 1, d[1] ? 2 : 0, d[1] ? 1 : 3, 0, d[1] == 0);
                     g.ar = d[2];
                     g.neigh = d[3];
                     set_card(g, d[4] ? Card{4, 3, 5} : Card{3, 2, 4});
                     g.fc_iter = d[5] ? 3 : 1;
                     g.seed = kSeeds[(d[0] + d[2]) % 4];
                     set_corr(g, corr[0]);
                   }});
  }
  {
    const std::vector<Card> c3{{4, 3, 5}, {8, 6, 10}, {2, 2, 2}};
    const Radix r{T ? u64{4095} : u64{1023}, 4, 2, c3.size(), 2, static_cast<u64>(nc)};
    const int nz = T ? 3 : 0;
    out.push_back({"sub3d", T ? "all non-empty cell subsets of a 2x2x3 grid x ..." : "all non-empty cell subsets of a 5x2x1 slab seen as 3D x 4 seed orderings x 2 neighbourhoods x 3 cardinality triples x 2 geometries x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = nz ? grid(2, 2, 3, d[0] + 1, d[4] ? 2 : 0, d[4] ? 3 : 0, 0) : grid(5, 2, 1, d[0] + 1, d[4] ? 2 : 0, d[4] ? 3 : 0, 0, false, true);
                     g.seed = kSeeds[d[1]];
                     g.neigh = d[2];
                     set_card(g, c3[d[3]]);
                     set_corr(g, corr[d[5]]);
                     g.ar = d[0] % kNAR;
                   }});
    const Radix r2{255, 4, 2, 3, 4, static_cast<u64>(nc)};
    out.push_back({"sub2x2x2", "all non-empty cell subsets of a 2x2x2 grid x 4 seed orderings x 2 neighbourhoods x 3 cardinality triples x look-ahead 1..4 x correction",
                   r2.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r2.decode(i);
                     m = grid(2, 2, 2, d[0] + 1, 0, d[0] % 7, 0, true);
                     g.seed = kSeeds[d[1]];
                     g.neigh = d[2];
                     set_card(g, c3[d[3]]);
                     g.fc_iter = d[4] + 1;
                     set_corr(g, corr[d[5]]);
                   }});
  }
  if (nc > 1) {
    // Thresholds between two and the minimum cardinality
    const std::vector<Card> ct{{6, 5, 7}, {7, 7, 8}, {5, 4, 9}};
    const Radix r{511, 2, ct.size(), 5, 4};
    out.push_back({"thresh", "all non-empty cell subsets of a 3x3 grid x 2 geometries x 3 cardinality triples x singular thresholds 2..6 x 4 seed orderings",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = grid(3, 3, 1, d[0] + 1, d[1] ? 2 : 0, d[1] ? 6 : 3, d[1] ? 3 : 0);
                     set_card(g, ct[d[2]]);
                     set_corr(g, d[3] + 2);
                     g.seed = kSeeds[d[4]];
                     g.neigh = (d[0] + d[2]) % 2;
                     g.ar = (d[0] + d[3]) % kNAR;
                     g.fc_iter = 1 + (d[0] / 3 + d[3] + d[4]) % 4;
                   }});
  }
  if (T) {
    const Radix r{4095, 2, 4, 2, 2, static_cast<u64>(nc)};
    out.push_back({"sub3x4", "all non-empty cell subsets of a 3x4 grid x 2 geometries x 4 seed orderings x 2 neighbourhoods x 2 cardinality triples x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = grid(3, 4, 1, d[0] + 1, d[1] ? 4 : 0, d[1] ? 6 : 0, d[1] ? 3 : 0);
                     g.seed = kSeeds[d[2]];
                     g.neigh = d[3];
                     set_card(g, d[4] ? Card{5, 3, 7} : Card{4, 2, 5});
                     set_corr(g, corr[d[5]]);
                   }});
    const Radix r4{65535, 4, static_cast<u64>(nc)};
    out.push_back({"sub4x4", "all non-empty cell subsets of a 4x4 grid x 4 seed orderings x correction",
                   r4.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r4.decode(i);
                     m = grid(4, 4, 1, d[0] + 1, 0, 0, 0);
                     g.seed = kSeeds[d[1]];
                     set_card(g, Card{4, 2, 5});
                     set_corr(g, corr[d[2]]);
                   }});
  }
  if (o.big) {
    const std::vector<Card> cb{{4, 2, 5}, {8, 6, 10}, {3, 3, 3}};
    const int nar = T ? kNAR : 5;
    const Radix r{kBig, 4, static_cast<u64>(nar), 2, T ? u64{4} : u64{2}, cb.size(), static_cast<u64>(nc)};
    out.push_back({"big", "12 structured/perforated meshes (up to 64 cells, 2D and 3D) x 4 seed orderings x aspect ratios x 2 neighbourhoods x look-ahead x 3 cardinality triples x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = big_mesh(d[0]);
                     g.seed = kSeeds[d[1]];
                     g.ar = nar == kNAR ? d[2] : 2 * d[2] + d[3];
                     g.neigh = d[3];
                     g.fc_iter = T ? d[4] + 1 : 2 * d[4] + 1;
                     set_card(g, cb[d[5]]);
                     set_corr(g, corr[d[6]]);
                   }});
  }
  if (o.big) {
    const std::vector<Card> cl{{4, 2, 5}, {8, 6, 10}, {12, 8, 16}, {20, 12, 30}, {3, 3, 3}, {2, 2, 2}};
    const Radix r{kLarge, cl.size(), 4, 2, 2, static_cast<u64>(nc)};
    out.push_back({"large", "11 meshes of 10 to 125 cells (grids, path, ring, star, complete graph, tree, circulant, no edge, pieces) x 6 cardinality triples up to {20,12,30} x 4 seed orderings x 2 neighbourhoods x 2 (aspect ratio, look-ahead up to 10 cells) x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = large_mesh(d[0]);
                     set_card(g, cl[d[1]]);
                     g.seed = kSeeds[d[2]];
                     g.neigh = d[3];
                     g.fc_iter = d[4] && g.max <= 10 ? 2 : 1;
                     g.ar = (d[0] + 3 * d[1] + 2 * d[2] + 5 * d[4]) % kNAR;
                     set_corr(g, corr[d[5]]);
                   }});
  }
  if (o.big) {
    const std::vector<Card> ch{{2, 2, 2}, {4, 2, 5}, {260, 8, 280}};
    const Radix r{kHuge, ch.size(), 4, static_cast<u64>(nc)};
    out.push_back({"huge", "5 meshes of 300 to 729 cells (grids, path, star, pairs; more than 256 coarse cells, neighbours, pieces) x 3 cardinality triples up to {260,8,280} x 4 seed orderings x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = large_mesh(kLarge + d[0]);
                     set_card(g, ch[d[1]]);
                     g.seed = kSeeds[d[2]];
                     g.neigh = (d[1] + d[2]) % 2;
                     g.ar = (d[0] + 3 * d[1] + 2 * d[2]) % kNAR;
                     set_corr(g, corr[d[3]]);
                   }});
  }
  if (o.big) {
    auto sizes = std::make_shared<std::vector<UL>>();
    for (auto n : kScaleSizes)
      if (n > 6 && n <= (T ? 300u : 66u) && (T || n % 2 || n > 20)) sizes->push_back(n);
    const std::vector<Card> ch{{2, 2, 3}, {4, 3, 5}, {17, 9, 20}};
    const Radix r{kScaleShapes, sizes->size(), 3, ch.size(), 4, 2, static_cast<u64>(nc)};
    out.push_back({"shapes", "12 shapes (path, path numbered by a stride, ring, stars, caterpillar, binary tree, two hubs, complete graph, grid, broom, two paths) of " + std::to_string(sizes->size()) + " sizes from 7 to " + std::to_string(sizes->back()) + " cells x 3 attribute patterns x 3 cardinality triples x 4 seed orderings x 2 neighbourhoods x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int at[3] = {1, 4, 5};
                     m = scale_mesh(d[0], (*sizes)[d[1]], at[d[2]], 2 + (d[0] + d[1]) % 2);
                     set_card(g, ch[d[3]]);
                     g.seed = kSeeds[d[4]];
                     g.neigh = d[5];
                     g.ar = (d[0] + 3 * d[1] + 2 * d[4]) % kNAR;
                     set_corr(g, corr[d[6]]);
                   }});
  }
  if (o.giant) {
    const Radix r{8, 2, 4, T ? static_cast<u64>(nc) : 1};
    out.push_back({"giant", "8 shapes of 140000 cells (more than 65536 coarse cells) x 2 cardinality triples x 4 seed orderings x correction in turn", r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int sh[8] = {0, 1, 2, 5, 6, 9, 10, 11};
                     // the hub of the broom: fewer cells, its neighbours are compared pairwise
                     m = scale_mesh(sh[d[0]], sh[d[0]] == 10 ? 2000 : 140000, 1 + 3 * (d[0] % 2));
                     set_card(g, d[1] ? Card{4, 2, 5} : Card{2, 2, 2});
                     g.seed = kSeeds[d[2]];
                     g.neigh = (d[1] + d[2]) % 2;
                     g.ar = (d[0] + 3 * d[1] + 2 * d[2]) % kNAR;
                     set_corr(g, corr[T ? d[3] : (d[0] + d[1] + d[2]) % nc]);
                   }});
  }
  out.push_back(dev_gen(0, T ? 3 : o.dev, T ? 4 : 1, corr));
  return out;
}

// Anisotropic calls with lines built by the library
inline std::vector<Gen> aniso_universe(const UOpt &o) {
  std::vector<Gen> out;
  const bool T = o.thorough;
  const auto corr = o.corr;
  const int nc = static_cast<int>(corr.size());
  static const double thr[5] = {4., 0.25, 1.5, -1., 1.};
  {
    // Stretched subsets
    const Radix r{511, 2, 2, 4, 2, 2, static_cast<u64>(nc)};
    out.push_back({"an3x3", "all cell subsets of a stretched 3x3 grid (all cells compliant) x odd flag x line limit {none,1..7} in two halves x 4 thresholds x direction flag x coupling x correction",
                   r.total() * 4, [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i / 4);
                     static const int lim[8] = {0, 3, 2, 5, 1, 4, 6, 7};
                     m = grid(3, 3, 1, d[0] + 1, d[5] ? 4 : 1, d[5] ? 3 : 0, 0, d[4] == 1);
                     g.aniso = true;
                     g.odd = d[1];
                     g.maxc = max_option(lim[d[2] * 4 + d[3]]);
                     g.athr = thr[i % 4];
                     g.dir = d[4];
                     g.coupling = d[5];
                     g.compliant = all_cells(m.n());
                     g.seed = kSeeds[d[3]];
                     set_corr(g, corr[d[6]]);
                     set_card(g, d[3] % 2 ? Card{4, 2, 5} : Card{4, 4, 5});
                   }});
  }
  {
    // small weighted graphs x compliant subsets
    const Radix r{n_graphs(4), 3, 15, 2, 3, 2, 2, 2, static_cast<u64>(nc)};
    out.push_back({"angraph4", "all labelled graphs on 4 nodes x 3 weight patterns x all compliant subsets x odd flag x line limit {none,2,3} x direction flag x coupling x 2 thresholds x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int pat[3] = {2, 7, 1}, lim[3] = {0, 2, 3};
                     m = small_graph(4, d[0], pat[d[1]]);
                     g.aniso = true;
                     g.compliant = subset_of(d[2] + 1, 4);
                     g.odd = d[3];
                     g.maxc = max_option(lim[d[4]]);
                     g.dir = d[5];
                     g.coupling = d[6];
                     g.athr = d[7] ? 1. : 1.25;
                     set_corr(g, corr[d[8]]);
                     set_card(g, d[7] ? Card{2, 2, 3} : Card{3, 3, 3});
                     g.seed = kSeeds[d[2] % 4];
                   }});
  }
  {
    // stretched grids, every line limit
    const Radix r{T ? u64{24} : u64{10}, 2, 10, 2, 2, 4, 3, static_cast<u64>(nc)};
    out.push_back({"angrid", "stretched, graded and skewed 2D/3D grids up to 6x7 and 3x3x4 x odd flag x line limit {none,1..9} x coupling x direction flag x 4 seed orderings x priorities x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int sz[24][4] = {{3, 3, 1, 1}, {2, 7, 1, 1}, {4, 5, 1, 4}, {5, 3, 1, 2}, {1, 6, 1, 1}, {2, 3, 3, 1}, {2, 4, 2, 4}, {6, 2, 1, 2}, {3, 5, 1, 1}, {2, 2, 1, 1},
                                                 {6, 6, 1, 1}, {6, 7, 1, 4}, {3, 3, 4, 1}, {2, 7, 2, 1}, {3, 3, 3, 4}, {1, 9, 1, 4}, {4, 4, 1, 1}, {4, 6, 1, 4}, {7, 3, 1, 2}, {5, 5, 1, 2}, {2, 8, 1, 1}, {2, 2, 5, 1}, {3, 4, 1, 1}, {3, 6, 1, 1}};
                     static const int pr[3] = {0, 3, 4};
                     const auto &s = sz[d[0]];
                     m = grid(s[0], s[1], s[2], ~u64{0}, s[3], pr[d[6]], 0, d[5] % 2);
                     g.aniso = true;
                     g.odd = d[1];
                     g.maxc = max_option(d[2]);
                     g.coupling = d[3];
                     g.dir = d[4];
                     g.seed = kSeeds[d[5]];
                     g.compliant = all_cells(m.n());
                     set_corr(g, corr[d[7]]);
                     set_card(g, m.dim == 3 ? Card{8, 6, 10} : d[5] < 2 ? Card{4, 2, 5} : Card{4, 3, 5});
                   }});
  }
  {
    // compliant subsets of a stretched 2x4 grid
    const Radix r{255, 2, 3, 2, 2, static_cast<u64>(nc)};
    out.push_back({"ancompl", "all compliant subsets of a stretched 2x4 grid x odd flag x line limit {none,2,3} x coupling x graded/uniform stretching x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int lim[3] = {0, 2, 3};
                     m = grid(2, 4, 1, ~u64{0}, d[4] ? 4 : 1, d[4] ? 3 : 0, 0);
                     g.aniso = true;
                     g.compliant = subset_of(d[0] + 1, 8);
                     g.odd = d[1];
                     g.maxc = max_option(lim[d[2]]);
                     g.coupling = d[3];
                     set_corr(g, corr[d[5]]);
                     set_card(g, {4, 2, 4});
                     g.seed = kSeeds[d[0] % 4];
                   }});
  }
  {
    // Isotropic settings next to built lines
    const std::vector<Card> cm{{3, 2, 4}, {4, 4, 5}, {6, 5, 7}};
    const Radix r{7, 4, 4, 2, cm.size(), 4, static_cast<u64>(nc), T ? u64{kNAR} : u64{2}};
    out.push_back({"anmix", "7 stretched meshes, a third of the cells not compliant x compliant cells listed upwards, downwards, rotated, twice x look-ahead 1..4 x 2 neighbourhoods x 3 cardinality triples x 4 seed orderings x correction x aspect ratios",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int sz[7][4] = {{3, 4, 1, 1}, {4, 4, 1, 4}, {2, 6, 1, 1}, {2, 2, 3, 1}, {3, 5, 1, 4}, {6, 3, 1, 2}, {2, 3, 3, 4}};
                     const auto &s = sz[d[0]];
                     m = grid(s[0], s[1], s[2], ~u64{0}, s[3], d[5] % 2 ? 3 : 6, 0);
                     g.aniso = true;
                     for (UL c = 0; c < m.n(); ++c)
                       if ((c + d[0]) % 3) g.compliant.push_back(c);
                     if (d[0] % 2) g.compliant = subset_of((u64{1} << m.n() * 2 / 3) - 1, m.n());
                     if (d[1] == 1) std::reverse(g.compliant.begin(), g.compliant.end());
                     if (d[1] == 2) std::rotate(g.compliant.begin(), g.compliant.begin() + g.compliant.size() / 2, g.compliant.end());
                     if (d[1] == 3) g.compliant.insert(g.compliant.end(), g.compliant.begin(), g.compliant.end());
                     g.fc_iter = d[2] + 1;
                     g.neigh = d[3];
                     set_card(g, cm[d[4]]);
                     g.seed = kSeeds[d[5]];
                     g.athr = d[5] < 2 ? 1.5 : 2.;
                     g.odd = (d[1] + d[2]) % 2;
                     g.coupling = (d[2] + d[5]) % 2;
                     g.dir = d[4] != 1;
                     set_corr(g, corr[d[6]]);
                     g.ar = T ? d[7] : (5 * d[7] + d[2] + d[5]) % kNAR;
                   }});
  }
  if (o.big) {
    // Long lines, every limit around their length
    const Radix r{23, 27, 2, 2, 4, static_cast<u64>(nc)};
    out.push_back({"anlong", "stretched and graded 2xL grids, L = 2..24 x line limit {none,1..26} x odd flag x geometry x 4 (seed ordering, coupling, direction flag) x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     m = grid(2, d[0] + 2, 1, ~u64{0}, d[3] ? 4 : 1, d[3] ? 3 : 0, 0);
                     g.aniso = true;
                     g.maxc = max_option(d[1]);
                     g.odd = d[2];
                     g.seed = kSeeds[d[4]];
                     g.coupling = d[4] % 2;
                     g.dir = d[4] < 2;
                     g.compliant = all_cells(m.n());
                     set_corr(g, corr[d[5]]);
                     set_card(g, {4, 2, 5});
                   }});
  }
  if (o.big) {
    const Radix r{2, 4, 2, 4, static_cast<u64>(nc)};
    out.push_back({"anhuge", "2 lines of 300 cells, 300 lines of 3 cells x line limit {none,2,256,299} x odd flag x 4 (seed ordering, coupling, direction flag) x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int lim[4] = {0, 2, 256, 299};
                     m = d[0] ? grid(300, 3, 1, ~u64{0}, 1, 3, 0) : grid(2, 300, 1, ~u64{0}, 1, 0, 0);
                     g.aniso = true;
                     g.maxc = max_option(lim[d[1]]);
                     g.odd = d[2];
                     g.seed = kSeeds[d[3]];
                     g.coupling = d[3] % 2;
                     g.dir = d[3] < 2;
                     g.compliant = all_cells(m.n());
                     set_corr(g, corr[d[4]]);
                     set_card(g, {4, 2, 5});
                   }});
  }
  if (o.giant) {
    const Radix r{2, 4, 2, 2, T ? static_cast<u64>(nc) : 1};
    out.push_back({"angiant", "2 lines of 70000 cells, 70000 lines of 2 cells x line limit {none,2,40000,69999} x odd flag x 2 (seed ordering, coupling, direction flag) x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int lim[4] = {0, 2, 40000, 69999};
                     m = d[0] ? grid(70000, 2, 1, ~u64{0}, 1, 3, 0) : grid(2, 70000, 1, ~u64{0}, 1, 0, 0);
                     g.aniso = true;
                     g.maxc = max_option(lim[d[1]]);
                     g.odd = d[2];
                     g.seed = kSeeds[3 * d[3]];
                     g.coupling = d[3];
                     g.dir = !d[3];
                     g.compliant = all_cells(m.n());
                     set_corr(g, corr[T ? d[4] : (d[0] + d[1] + d[2] + d[3]) % nc]);
                     set_card(g, {4, 2, 5});
                   }});
  }
  out.push_back(dev_gen(1, T ? 3 : 2, T ? 1 : 2, corr));
  return out;
}

// Anisotropic calls with provided lines
inline std::vector<Gen> lines_universe(const UOpt &o) {
  std::vector<Gen> out;
  const bool T = o.thorough;
  const auto corr = o.corr;
  const int nc = static_cast<int>(corr.size());
  struct Base { int nx, ny, nz; size_t nl, len; };
  const std::vector<Base> bases = T ? std::vector<Base>{{1, 6, 1, 3, 6}, {2, 3, 1, 2, 6}, {3, 3, 1, 1, 7}, {2, 2, 2, 1, 5}, {1, 7, 1, 2, 7}, {2, 4, 1, 2, 3}}
                                    : std::vector<Base>{{1, 5, 1, 2, 5}, {2, 3, 1, 2, 4}, {3, 3, 1, 1, 6}, {1, 7, 1, 1, 7}};
  for (size_t b = 0; b < bases.size(); ++b) {
    const auto bs = bases[b];
    auto sets = std::make_shared<std::vector<std::vector<std::vector<UL>>>>(
      line_sets(adjacency(grid(bs.nx, bs.ny, bs.nz, ~u64{0}, 0, 0, 0)), bs.nl, bs.len, 200000));
    const Radix r{sets->size(), 2, 9, 3, 3, static_cast<u64>(nc)};
    out.push_back({"lines" + std::to_string(bs.nx) + "x" + std::to_string(bs.ny) + "x" + std::to_string(bs.nz),
                   "all ordered sets of at most " + std::to_string(bs.nl) + " disjoint oriented paths of at most " + std::to_string(bs.len) + " cells (" + std::to_string(sets->size()) + " sets) x odd flag x line limit {none,1..8} x 3 boundary patterns x 3 priority patterns x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int bn[3] = {0, 1, 2}, pr[3] = {0, 2, 6};
                     m = grid(bs.nx, bs.ny, bs.nz, ~u64{0}, 0, pr[d[4]], bn[d[3]], d[3] == 0);
                     g.aniso = true;
                     g.build = false;
                     set_lines(g, (*sets)[d[0]]);
                     g.odd = d[1];
                     g.maxc = max_option(d[2]);
                     g.seed = kSeeds[(d[0] + d[4]) % 4];
                     set_corr(g, corr[d[5]]);
                     set_card(g, d[4] == 1 ? Card{4, 4, 4} : Card{3, 2, 4});
                   }});
  }
  if (o.big) {
    const Radix r{23, 27, 2, 2, 3, static_cast<u64>(nc)};
    out.push_back({"lineslong", "3xL grids, L = 2..24, with a whole outer column and the middle one but its first cell as lines x line limit {none,1..26} x odd flag x orientation x 3 (boundary, priority) patterns x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     const int L = d[0] + 2;
                     static const int bn[3] = {0, 1, 2}, pr[3] = {3, 2, 6};
                     m = grid(3, L, 1, ~u64{0}, 0, pr[d[4]], bn[d[4]]);
                     std::vector<std::vector<UL>> ls(2);
                     for (int j = 0; j < L; ++j) ls[0].push_back(3 * j);
                     for (int j = 1; j < L; ++j) ls[1].push_back(3 * j + 1);
                     if (d[3])
                       for (auto &l : ls) std::reverse(l.begin(), l.end());
                     g.aniso = true;
                     g.build = false;
                     set_lines(g, ls);
                     g.maxc = max_option(d[1]);
                     g.odd = d[2];
                     g.seed = kSeeds[(d[0] + d[4]) % 4];
                     set_corr(g, corr[d[5]]);
                     set_card(g, {4, 2, 5});
                   }});
  }
  if (o.big) {
    const Radix r{2, 4, 2, 2, static_cast<u64>(nc)};
    out.push_back({"lineshuge", "an outer column of 301 cells, 300 columns of 3 cells as lines x line limit {none,2,256,299} x odd flag x orientation x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int lim[4] = {0, 2, 256, 299};
                     std::vector<std::vector<UL>> ls;
                     if (d[0]) {
                       m = grid(300, 4, 1, ~u64{0}, 0, 3, 0);
                       for (UL k = 0; k < 300; ++k) ls.push_back({k, 300 + k, 600 + k});
                     } else {
                       m = grid(2, 301, 1, ~u64{0}, 0, 2, 0);
                       ls.emplace_back();
                       for (UL k = 0; k < 301; ++k) ls[0].push_back(2 * k);
                     }
                     if (d[3])
                       for (auto &l : ls) std::reverse(l.begin(), l.end());
                     g.aniso = true;
                     g.build = false;
                     set_lines(g, ls);
                     g.maxc = max_option(lim[d[1]]);
                     g.odd = d[2];
                     g.seed = kSeeds[(d[0] + 2 * d[3]) % 4];
                     set_corr(g, corr[d[4]]);
                     set_card(g, {4, 2, 5});
                   }});
  }
  if (o.giant) {
    const Radix r{2, 4, 2, 2, T ? static_cast<u64>(nc) : 1};
    out.push_back({"linesgiant", "an outer column of 70001 cells, 70000 columns of 2 cells as lines x line limit {none,2,40000,69999} x odd flag x orientation x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     static const int lim[4] = {0, 2, 40000, 69999};
                     std::vector<std::vector<UL>> ls;
                     if (d[0]) {
                       m = grid(70000, 3, 1, ~u64{0}, 0, 3, 0);
                       for (UL k = 0; k < 70000; ++k) ls.push_back({k, 70000 + k});
                     } else {
                       m = grid(2, 70001, 1, ~u64{0}, 0, 2, 0);
                       ls.emplace_back();
                       for (UL k = 0; k < 70001; ++k) ls[0].push_back(2 * k);
                     }
                     if (d[3])
                       for (auto &l : ls) std::reverse(l.begin(), l.end());
                     g.aniso = true;
                     g.build = false;
                     set_lines(g, ls);
                     g.maxc = max_option(lim[d[1]]);
                     g.odd = d[2];
                     g.seed = kSeeds[(d[0] + 2 * d[3]) % 4];
                     set_corr(g, corr[T ? d[4] : (d[0] + d[1] + d[2] + d[3]) % nc]);
                     set_card(g, {4, 2, 5});
                   }});
  }
  {
    // Several lines and isotropic settings
    struct Case { int nx, ny, nz; std::vector<std::vector<UL>> ls; };
    auto cases = std::make_shared<std::vector<Case>>(std::vector<Case>{
      {4, 4, 1, {{0, 4, 8}, {5, 1}, {2, 6, 10, 14}}},
      {5, 3, 1, {{0, 5, 10}, {12, 7}, {3, 8, 13}, {4}, {1, 6, 11}}},
      {3, 5, 1, {{0, 1, 2}, {5, 4, 3}, {6, 7, 8}, {11, 10}}},
      {4, 5, 1, {{17, 16, 12, 8, 9}, {0, 1}, {2, 3, 7, 6, 5}, {14}, {19, 18}}},
      {3, 3, 2, {{0, 9}, {1, 10}, {3, 12}, {4, 13}, {8, 17}}},
      {2, 3, 3, {{0, 6, 12}, {1, 7, 13}, {4, 10, 16}}},
      {7, 2, 1, {{0, 7}, {1, 8}, {2, 9}, {3, 10}, {4, 11}, {5, 12}}}});
    const std::vector<Card> cm{{3, 2, 4}, {4, 4, 5}, {6, 5, 7}};
    const Radix r{cases->size(), 6, 4, 2, cm.size(), 4, static_cast<u64>(nc), T ? u64{kNAR} : u64{2}};
    out.push_back({"linesmix", "7 sets of 3 to 6 lines on 2D and 3D grids x 3 orders of the lines and 2 orientations x look-ahead 1..4 x 2 neighbourhoods x 3 cardinality triples x 4 seed orderings x correction x aspect ratios",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     const auto &s = (*cases)[d[0]];
                     m = grid(s.nx, s.ny, s.nz, ~u64{0}, 0, d[5] % 2 ? 3 : 6, d[5] < 2 ? 0 : 1);
                     auto ls = s.ls;
                     if (d[1] % 3 == 1) std::reverse(ls.begin(), ls.end());
                     if (d[1] % 3 == 2) std::rotate(ls.begin(), ls.begin() + 1, ls.end());
                     if (d[1] / 3)
                       for (auto &l : ls) std::reverse(l.begin(), l.end());
                     g.aniso = true;
                     g.build = false;
                     set_lines(g, ls);
                     g.fc_iter = d[2] + 1;
                     g.neigh = d[3];
                     set_card(g, cm[d[4]]);
                     g.seed = kSeeds[d[5]];
                     g.odd = (d[1] + d[2] + d[5]) % 2;
                     g.maxc = max_option((d[0] + d[2] + d[4]) % 5);
                     set_corr(g, corr[d[6]]);
                     g.ar = T ? d[7] : (5 * d[7] + d[2] + d[5]) % kNAR;
                   }});
  }
  // Lines through arbitrary graphs
  for (int n = 3; n <= 5; ++n) {
    struct Item { u64 graph; std::vector<std::vector<UL>> ls; };
    auto items = std::make_shared<std::vector<Item>>();
    for (u64 b = 0; b < n_graphs(n); ++b) {
      if (n == 5 && !T && __builtin_popcountll(b) > 8) continue;
      for (auto &ls : line_sets(graph_adj(n, b), n == 4 ? 2 : 1, n == 5 ? 3 : 4, 200000)) {
        bool usable = false;
        for (const auto &l : ls) usable = usable || l.size() > 1;
        if (usable && ls[0].front() < ls[0].back()) items->push_back({b, ls});
      }
    }
    const Radix r{items->size(), 2, 2, static_cast<u64>(nc)};
    out.push_back({"linegraph" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes" + (n == 5 && !T ? " with at most 8 edges" : "") + " x all usable sets of at most " + (n == 4 ? "2 lines" : "1 line") + " (" + std::to_string(items->size()) + " pairs) x odd flag x 2 cardinality triples x correction",
                   r.total(), [=](u64 i, Mesh &m, Config &g) {
                     const auto d = r.decode(i);
                     const auto &it = (*items)[d[0]];
                     m = small_graph(n, it.graph, d[0] % 3 == 0 ? 0 : d[0] % 3 == 1 ? 4 : 8);
                     g.aniso = true;
                     g.build = false;
                     set_lines(g, it.ls);
                     g.odd = d[1];
                     g.seed = kSeeds[d[0] % 4];
                     g.neigh = d[0] / 4 % 2;
                     set_corr(g, corr[d[3]]);
                     set_card(g, d[2] ? Card{4, 4, 5} : Card{3, 3, 3});
                   }});
  }
  out.push_back(dev_gen(2, T ? 3 : 2, T ? 1 : 2, corr));
  return out;
}

inline std::vector<Gen> universe(const UOpt &o) {
  std::vector<Gen> u;
  auto app = [&](std::vector<Gen> v) {
    for (auto &x : v) u.push_back(x);
  };
  if (o.iso) app(iso_universe(o));
  if (o.aniso) {
    app(aniso_universe(o));
    app(lines_universe(o));
  }
  return u;
}

}  // namespace vf
