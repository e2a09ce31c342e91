// The alphabet of calls shared by the checks about histories, threads and
// failing allocations.
#pragma once
#include "universe.hpp"

namespace vf {

// The outputs live across the calls of a history
struct World {
  std::vector<UL> f2c, lidx, lines, filtered;
  std::vector<UL> crow, ccol;
  std::vector<double> cw, cvol, cprio, dist;
  std::vector<std::vector<double>> cc;
  std::vector<int> cnb;
};
struct Action {
  std::string name;
  Mesh m;
  Config g;
  int kind = 0;  // 0 agglomeration, 1 coarse graph, 2 wall distance, 3 filter, 4 grouped arguments
  u64 hash = 0;
  std::string ref;
};
inline std::vector<Action> A;

inline u64 hash_inputs(const Action &a) {
  u64 h = hash_mesh(a.m);
  h = mc::hash_seq(h, a.g.compliant);
  h = mc::hash_seq(h, a.g.lidx);
  return mc::hash_seq(h, a.g.lines);
}

// The outputs an action defines
inline std::string shown(const Action &a, const World &w) {
  std::ostringstream o;
  o.precision(17);
  if (a.kind == 0 || a.kind == 4) {
    o << "f2c=" << str(w.f2c);
    if (a.g.aniso) o << " lidx=" << str(w.lidx) << " lines=" << str(w.lines);
  } else if (a.kind == 1) {
    o << str(w.crow) << str(w.ccol) << str(w.cw) << str(w.cvol) << str(w.cprio) << str(w.cnb);
    for (auto &x : w.cc) o << str(x);
  } else if (a.kind == 2) {
    o << str(w.dist);
  } else {
    o << str(w.filtered);
  }
  return o.str();
}

inline std::string perform(const Action &a, World &w) {
  const Mesh &m = a.m;
  const Config &g = a.g;
  try {
    if (a.kind == 0 || a.kind == 4) {
      if (g.aniso && !g.build) {
        w.lidx = g.lidx;
        w.lines = g.lines;
      }
      if (a.kind == 0) {
        agglomerate_one_level<UL, double, int>(
          m.row, m.col, m.w, m.vol, m.c, m.prio, g.compliant, m.nbnd, g.build, g.aniso, g.odd, g.athr,
          static_cast<CoMMASeedsPoolT>(g.seed), w.f2c, w.lidx, w.lines, g.corr, m.dim, g.goal, g.min, g.max,
          static_cast<CoMMAAspectRatioT>(g.ar), g.thresh, g.maxc, static_cast<CoMMACellCouplingT>(g.coupling), g.dir,
          g.fc_iter, static_cast<CoMMANeighbourhoodT>(g.neigh));
      } else {
        const GraphArgs<UL, double, int> ga(m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, m.dim);
        const AgglomerationArgs<UL, double, int> aa(g.goal, g.min, g.max, g.corr, static_cast<CoMMASeedsPoolT>(g.seed), static_cast<CoMMAAspectRatioT>(g.ar), g.thresh, g.fc_iter, static_cast<CoMMANeighbourhoodT>(g.neigh));
        const AnisotropicArgs<UL, double, int> an(g.aniso, g.compliant, g.build, g.odd, g.athr, g.maxc, static_cast<CoMMACellCouplingT>(g.coupling), g.dir);
        agglomerate_one_level<UL, double, int>(ga, aa, an, w.f2c, w.lidx, w.lines);
      }
    } else if (a.kind == 1) {
      build_coarse_graph<UL, double, int>(g.lines, m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, w.crow, w.ccol, w.cw, w.cvol, w.cc, w.cprio, w.cnb);
    } else if (a.kind == 2) {
      compute_neighbourhood_based_wall_distance<UL, double>(m.row, m.col, g.lines, w.dist);
    } else {
      filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, {g.goal, g.max}, w.filtered);
    }
  } catch (const std::invalid_argument &e) {
    return std::string("invalid_argument ") + e.what();
  }
  return shown(a, w);
}

// The library call of an action, without any formatting, under a guard that
// covers that call only: returns true if it was rejected as invalid
template<class Guard>
bool raw(const Action &a, World &w) {
  const Mesh &m = a.m;
  const Config &g = a.g;
  std::unordered_set<int> want{g.goal, g.max};
  if ((a.kind == 0 || a.kind == 4) && g.aniso && !g.build) {
    w.lidx = g.lidx;
    w.lines = g.lines;
  }
  Guard guard;
  try {
    if (a.kind == 0)
      agglomerate_one_level<UL, double, int>(
        m.row, m.col, m.w, m.vol, m.c, m.prio, g.compliant, m.nbnd, g.build, g.aniso, g.odd, g.athr,
        static_cast<CoMMASeedsPoolT>(g.seed), w.f2c, w.lidx, w.lines, g.corr, m.dim, g.goal, g.min, g.max,
        static_cast<CoMMAAspectRatioT>(g.ar), g.thresh, g.maxc, static_cast<CoMMACellCouplingT>(g.coupling), g.dir,
        g.fc_iter, static_cast<CoMMANeighbourhoodT>(g.neigh));
    else if (a.kind == 4) {
      const GraphArgs<UL, double, int> ga(m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, m.dim);
      const AgglomerationArgs<UL, double, int> aa(g.goal, g.min, g.max, g.corr, static_cast<CoMMASeedsPoolT>(g.seed), static_cast<CoMMAAspectRatioT>(g.ar), g.thresh, g.fc_iter, static_cast<CoMMANeighbourhoodT>(g.neigh));
      const AnisotropicArgs<UL, double, int> an(g.aniso, g.compliant, g.build, g.odd, g.athr, g.maxc, static_cast<CoMMACellCouplingT>(g.coupling), g.dir);
      agglomerate_one_level<UL, double, int>(ga, aa, an, w.f2c, w.lidx, w.lines);
    } else if (a.kind == 1)
      build_coarse_graph<UL, double, int>(g.lines, m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, w.crow, w.ccol, w.cw, w.cvol, w.cc, w.cprio, w.cnb);
    else if (a.kind == 2)
      compute_neighbourhood_based_wall_distance<UL, double>(m.row, m.col, g.lines, w.dist);
    else
      filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, want, w.filtered);
  } catch (const std::invalid_argument &) {
    return true;
  }
  return false;
}

inline void build_alphabet() {
  const Mesh hole = grid(3, 3, 1, 0x1EF, 0, 2, 0), full = grid(4, 4, 1, ~u64{0}, 2, 3, 0, true), box = grid(2, 2, 3, ~u64{0}, 0, 4, 0),
             thin = grid(3, 5, 1, ~u64{0}, 1, 0, 0), parts = grid(5, 3, 1, 0x5B6D, 0, 6, 3), single = grid(1, 1, 1, 1, 0, 5, 0),
             pairs = grid(4, 1, 1, 0xB, 0, 0, 0), thin3 = grid(2, 4, 2, ~u64{0}, 4, 3, 0);
  auto add = [](std::string n, const Mesh &m, int kind = 0) -> Config & {
    Action a;
    a.name = n;
    a.m = m;
    a.kind = kind;
    A.push_back(a);
    return A.back().g;
  };
  for (int ar = 0; ar < kNAR; ++ar) {
    auto &g = add("isotropic, aspect ratio " + std::to_string(ar), ar % 2 ? full : hole);
    g.ar = ar;
    g.seed = kSeeds[ar % 4];
    set_card(g, {4, 2, 5});
    g.neigh = ar / 5;
    g.fc_iter = 1 + ar % 4;
    set_corr(g, ar % 3);
  }
  for (int s = 0; s < 4; ++s) {
    auto &g = add("isotropic 3D, seed ordering " + std::to_string(kSeeds[s]), box, s % 2 ? 4 : 0);
    g.seed = kSeeds[s];
    set_card(g, {4, 3, 6});
    set_corr(g, 2);
    auto &h = add("isotropic, separate pieces, seed ordering " + std::to_string(kSeeds[s]), parts);
    h.seed = kSeeds[s];
    set_card(h, {3, 2, 3});
    set_corr(h, 3 - s);
  }
  for (int k = 0; k < 6; ++k) {
    auto &g = add("built lines " + std::to_string(k), k % 3 == 2 ? thin3 : thin, k % 2 ? 4 : 0);
    g.aniso = true;
    g.compliant = k == 4 ? std::vector<UL>{} : all_cells(A.back().m.n());
    if (k == 3) g.compliant = {7, 4, 1, 10, 0};
    g.odd = k % 2;
    g.coupling = k / 3;
    g.dir = k != 5;
    g.athr = k == 1 ? 0.25 : k == 2 ? -1. : 4.;
    g.maxc = max_option(k == 0 ? 3 : 0);
    set_corr(g, k % 3);
    set_card(g, {4, 2, 6});
  }
  for (int k = 0; k < 4; ++k) {
    auto &g = add("provided lines " + std::to_string(k), thin);
    g.aniso = true;
    g.build = false;
    g.odd = k % 2 == 0;
    if (k == 0) set_lines(g, {{0, 3, 6, 9, 12}, {2, 5, 8}});
    if (k == 1) set_lines(g, {{1}, {13, 10, 7, 4}});
    if (k == 2) set_lines(g, {{4}, {2}});
    if (k == 3) { set_lines(g, {{0, 1, 2, 5, 4}}); g.maxc = 3; }
    set_corr(g, k % 2);
  }
  {
    auto &g = add("large coarse cells", full);
    set_card(g, {9, 7, 20});
    g.neigh = 1;
  }
  add("single cell", single).seed = 10;
  add("two pieces", pairs).goal = 3;
  add("rejected: look-ahead", hole).fc_iter = 7;
  add("rejected: cardinality", hole).min = 1;
  add("rejected: aspect ratio", full).ar = 12;
  {
    auto &g = add("rejected: seed ordering after lines", thin);
    g.seed = 5;
    g.aniso = true;
    g.compliant = all_cells(thin.n());
  }
  {
    auto &g = add("rejected: lines and index disagree", thin);
    g.aniso = true;
    g.build = false;
    set_lines(g, {{0, 3, 6}});
    g.lidx.back() = 2;
  }
  add("coarse graph", hole, 1).lines = {0, 0, 1, 2, 1, 2, 2, 3};
  add("coarse graph 3D", box, 1).lines = {0, 0, 1, 1, 0, 2, 1, 3, 2, 2, 3, 3};
  add("wall distance", full, 2).lines = {5, 0};
  add("wall distance, empty wall", parts, 2);
  { auto &g = add("filter", hole, 3); g.goal = 4; g.max = 3; }
  { auto &g = add("filter, nothing", full, 3); g.goal = 0; g.max = -1; }
  for (auto &a : A) a.hash = hash_inputs(a);
}

}  // namespace vf
