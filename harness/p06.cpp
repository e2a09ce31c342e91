#include "model.hpp"
using namespace vf;

// 2x3 grid with arbitrary weights on its 7 edges
static Mesh weighted_2x3(u64 code, int prio, int geo) {
  Mesh m = grid(2, 3, 1, ~u64{0}, geo, prio, 0);
  static const double val[3] = {1., 9., 10.};
  std::map<std::pair<UL, UL>, double> w;
  for (UL i = 0; i < m.n(); ++i)
    for (UL k = m.row[i]; k < m.row[i + 1]; ++k) {
      const auto key = std::make_pair(std::min(i, m.col[k]), std::max(i, m.col[k]));
      if (!w.count(key)) {
        w[key] = val[code % 3];
        code /= 3;
      }
      m.w[k] = w[key];
    }
  return m;
}

// Cells 0-1 along x; from 1, three more cells at given angles; from 0, one more
static const double kAng[8] = {0., 10., 19., 21., -15., 90., 180., -170.};
static Mesh fan(int a, int b, int c, int d, u64 wcode, int prio, bool is3d) {
  Mesh m;
  m.exact = false;
  m.dim = is3d ? 3 : 2;
  const double pi = std::acos(-1.);
  auto at = [&](double ang, double x0, double len) {
    std::vector<double> p{x0 + len * std::cos(ang * pi / 180.), len * std::sin(ang * pi / 180.)};
    if (is3d) p = {p[0], p[1] * 0.6, p[1] * 0.8};
    return p;
  };
  m.c = {at(0, 0, 0), at(0, 1, 0), at(kAng[a], 1, 1.), at(kAng[b], 1, 1.25), at(kAng[c], 1, 0.8), at(180 + kAng[d], 0, 1.)};
  static const double val[3] = {10., 8., 9.5};
  const double w01 = 10.;
  const double w[4] = {val[wcode % 3], val[wcode / 3 % 3], val[wcode / 9 % 3], val[wcode / 27 % 3]};
  std::vector<std::vector<UL>> adj{{1, 5}, {0, 2, 3, 4}, {1}, {1}, {1}, {0}};
  set_graph(m, adj, [&](UL i, UL j) {
    const UL lo = std::min(i, j), hi = std::max(i, j);
    return lo == 0 && hi == 1 ? w01 : hi == 5 ? w[3] : w[hi - 2];
  });
  for (int i = 0; i < 6; ++i) {
    m.vol.push_back(1.);
    m.nbnd.push_back(0);
    m.prio.push_back(prio == 0 ? -i : prio == 1 ? (i == 1) : (i == 2));
  }
  return m;
}

// A strip of cells turning by a given angle at each inner one, two cells hanging
// from every cell across it
static Mesh strip(int n, u64 turns, int base, const double *ang, int start, int side, bool is3d) {
  Mesh m;
  m.exact = false;
  m.dim = is3d ? 3 : 2;
  const double pi = std::acos(-1.);
  auto put = [&](double x, double y) { m.c.push_back(is3d ? std::vector<double>{x, 0.6 * y, 0.8 * y} : std::vector<double>{x, y}); };
  double x = 0, y = 0, a = 0;
  std::vector<std::array<double, 3>> at;
  for (int k = 0; k < n; ++k) {
    if (k > 1) {
      a += ang[turns % static_cast<u64>(base)] * pi / 180.;
      turns /= static_cast<u64>(base);
    }
    if (k) {
      x += std::cos(a);
      y += std::sin(a);
    }
    at.push_back({x, y, a});
    put(x, y);
  }
  const UL N = static_cast<UL>(n);
  std::vector<std::vector<UL>> adj(side ? 2 * N : N);
  for (UL k = 0; k < N; ++k) {
    if (k) adj[k].push_back(k - 1);
    if (k + 1 < N) adj[k].push_back(k + 1);
    if (side) {
      // across the strip, or almost along it in either direction
      const double b = at[k][2] + (side == 1 ? 90. : side == 2 ? 7. : 187.) * pi / 180.;
      put(at[k][0] + 1.1 * std::cos(b), at[k][1] + 1.1 * std::sin(b));
      adj[k].push_back(N + k);
      adj[N + k].push_back(k);
    }
  }
  set_graph(m, adj, [&](UL i, UL j) { return std::max(i, j) >= N ? 9. : 10. + 0.125 * static_cast<double>(std::min(i, j) % 3); });
  for (UL i = 0; i < adj.size(); ++i) {
    m.vol.push_back(1.);
    m.nbnd.push_back(0);
    m.prio.push_back(i == static_cast<UL>(start) ? 9. : -static_cast<double>(i));
  }
  return m;
}

int main(int argc, char **argv) {
  const int c_l = mc::counter("lines compared"), c_amb = mc::counter("runs skipped: decision within rounding"), c_none = mc::counter("runs without lines"),
            c_long = mc::counter("lines of four or more cells"), c_mid = mc::counter("lines extended on both sides of their start");
  const bool T = mc::is_thorough();
  UOpt o;
  o.giant = true;
  o.thorough = T;
  o.corr = {0};
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    bool self = false;
    for (UL i = 0; i < m.n(); ++i)
      for (UL k = m.row[i]; k < m.row[i + 1]; ++k) self = self || m.col[k] == i;
    Mesh mm = m;
    if (self && (g.coupling == 1 || g.athr < 0)) {
      // Self entries are only meaningful for the threshold on weights: drop them
      const auto adj = adjacency(m);
      std::map<std::pair<UL, UL>, double> w;
      for (UL i = 0; i < m.n(); ++i)
        for (UL k = m.row[i]; k < m.row[i + 1]; ++k) w[{i, m.col[k]}] = m.w[k];
      set_graph(mm, adj, [&](UL i, UL j) { return w[{i, j}]; });
    }
    const auto r = call(mm, g);
    const auto L = build_lines(mm, g);
    const auto gr = groups(mm, r);
    cover(ctx, mm, r, gr);
    if (L.ambiguous) {
      ctx.count(c_amb);
      return;
    }
    ctx.trace();
    judge_pairs(mm, g, r, pair_lines(mm, g, L.v));
    ctx.count(c_l, L.v.size());
    for (const auto &l : L.v) {
      if (l.size() >= 4) ctx.count(c_long);
      const auto top = std::max_element(l.begin(), l.end(), [&](UL a, UL b) { return mm.prio[a] < mm.prio[b]; });
      if (top != l.begin() && top + 1 != l.end()) ctx.count(c_mid);
    }
    if (L.v.empty()) {
      ctx.count(c_none);
      Config iso = g;
      iso.aniso = false;
      const auto q = call(mm, iso);
      if (q.f2c != r.f2c) ctx.fail("no line: result differs from the isotropic one; " + show(r) + " isotropic " + show(q));
    }
  };
  std::vector<mc::Space> sp;
  for (const auto &u : aniso_universe(o)) sp.push_back(as_space(u, f));
  {
    const Radix r{2187, 3, 2, 2, 2, 2};
    sp.push_back(as_space({"weights2x3", "2x3 grid, all assignments of weights {1,9,10} to its 7 edges x 3 priorities x direction flag x coupling x threshold {1,5} x odd flag", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int pr[3] = {0, 3, 2};
                             m = weighted_2x3(d[0], pr[d[1]], d[3] ? 4 : 0);
                             g.aniso = true;
                             g.compliant = all_cells(6);
                             g.dir = d[2];
                             g.coupling = d[3];
                             g.athr = d[4] ? 5. : 1.;
                             g.odd = d[5];
                             set_card(g, {2, 2, 3});
                           }}, f));
    const Radix q{8, 8, 8, T ? u64{8} : u64{3}, 81, 3, 2, 2};
    sp.push_back(as_space({"fan", "a two-cell start with three branches and one on the other side, all angles from {0,10,19,21,-15,90,180,-170} x all weights {10,8,9.5} x starting cell x coupling x dimension", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             m = fan(d[0], d[1], d[2], d[3], d[4], d[5], d[7]);
                             g.aniso = true;
                             g.compliant = all_cells(6);
                             g.coupling = d[6];
                             g.athr = -1.;
                             g.odd = true;
                             set_card(g, {2, 2, 3});
                           }}, f));
  }
  {
    static const double ang[6] = {0., 10., 18.5, -10., -18.5, 40.};
    static const double few[3] = {0., 13., -13.};
    const int L = T ? 7 : 6, M = T ? 11 : 9;
    u64 k6 = 1, k3 = 1;
    for (int k = 2; k < L; ++k) k6 *= 6;
    for (int k = 2; k < M; ++k) k3 *= 3;
    auto set = [](Config &g, const Mesh &m, int side, int coupling) {
      g.aniso = true;
      g.compliant = all_cells(m.n());
      g.coupling = coupling;
      g.athr = side == 3 ? 1. : -1.;
      g.odd = true;
      set_card(g, {2, 2, 3});
    };
    const Radix q{k6, static_cast<u64>(L), 4, 2, 2};
    sp.push_back(as_space({"strips", "strips of " + std::to_string(L) + " cells turning by {0,10,18.5,-10,-18.5,40} degrees at each of them x every starting cell x without side cells, with side cells across, ahead or behind x coupling x dimension", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             m = strip(L, static_cast<u64>(d[0]), 6, ang, d[1], d[2], d[4]);
                             set(g, m, d[2], d[3]);
                           }}, f));
    const Radix w{k3, static_cast<u64>(M), 4, 2};
    sp.push_back(as_space({"longstrips", "strips of " + std::to_string(M) + " cells turning by {0,13,-13} degrees at each of them x every starting cell x without side cells, with side cells across, ahead or behind x coupling", w.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = w.decode(i);
                             m = strip(M, static_cast<u64>(d[0]), 3, few, d[1], d[2], false);
                             set(g, m, d[2], d[3]);
                           }}, f));
  }
  if (T) {
    const Radix r{n_graphs(5), 4, 31, 2, 2, 2};
    sp.push_back(as_space({"angraph5", "all labelled graphs on 5 nodes x 4 patterns x all compliant subsets x direction flag x coupling x threshold", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int pat[4] = {2, 7, 1, 4};
                             m = small_graph(5, d[0], pat[d[1]]);
                             g.aniso = true;
                             g.compliant = subset_of(d[2] + 1, 5);
                             g.dir = d[3];
                             g.coupling = d[4];
                             g.athr = d[5] ? 1. : 1.25;
                             set_card(g, {2, 2, 3});
                           }}, f));
  }
  mc::Options opt;
  opt.property = "P06";
  opt.rule = "lines and anisotropic coarse cells equal those of the reference model of line building";
  opt.assumptions = {"runs where a decision of the model is within 1e-9 of a tie or threshold are executed but not compared (counted in outcomes)"};
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs compared with the model trace";
  return mc::drive(argc, argv, opt, sp);
}
