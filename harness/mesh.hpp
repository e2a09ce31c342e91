// Input families, configurations, call wrapper and common oracles.
#pragma once
#include "mc.hpp"

#include <cmath>
#include <optional>

#include "CoMMA/CoMMA.h"

namespace vf {

using mc::u64;
using UL = unsigned long;
using namespace comma;  // NOLINT

struct Mesh {
  int dim = 2;
  std::vector<UL> row, col;
  std::vector<double> w, vol;
  std::vector<std::vector<double>> c;
  std::vector<double> prio;
  std::vector<int> nbnd;
  bool exact = true;  // dyadic geometry: distances carry no rounding
  size_t n() const { return vol.size(); }
};

struct Config {
  int goal = 4, min = 2, max = 4;
  int seed = 0;    // CoMMASeedsPoolT
  int ar = 0;      // CoMMAAspectRatioT
  int neigh = 0;   // CoMMANeighbourhoodT
  int fc_iter = 1;
  bool corr = false;
  int thresh = 1;
  bool aniso = false, build = true, odd = true;
  double athr = 4.;
  std::optional<int> maxc;
  int coupling = 0;
  bool dir = true;
  std::vector<UL> compliant;
  std::vector<UL> lidx, lines;  // provided lines
};

struct Result {
  std::vector<UL> f2c, lidx, lines;
};

inline std::vector<std::vector<UL>> adjacency(const Mesh &m) {
  std::vector<std::vector<UL>> a(m.n());
  for (UL i = 0; i < m.n(); ++i)
    for (UL k = m.row[i]; k < m.row[i + 1]; ++k)
      if (m.col[k] != i) a[i].push_back(m.col[k]);
  return a;
}

inline Result call(const Mesh &m, const Config &g) {
  Result r;
  r.lidx = g.lidx;
  r.lines = g.lines;
  agglomerate_one_level<UL, double, int>(
    m.row, m.col, m.w, m.vol, m.c, m.prio, g.compliant, m.nbnd, g.build, g.aniso, g.odd, g.athr,
    static_cast<CoMMASeedsPoolT>(g.seed), r.f2c, r.lidx, r.lines, g.corr, m.dim, g.goal, g.min, g.max,
    static_cast<CoMMAAspectRatioT>(g.ar), g.thresh, g.maxc, static_cast<CoMMACellCouplingT>(g.coupling), g.dir,
    g.fc_iter, static_cast<CoMMANeighbourhoodT>(g.neigh)
  );
  return r;
}

// ---------------------------------------------------------------- printing
template<class V>
std::string str(const V &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  bool f = true;
  for (const auto &x : v) {
    o << (f ? "" : ",") << x;
    f = false;
  }
  o << "]";
  return o.str();
}
inline std::string describe(const Mesh &m, const Config &g) {
  std::ostringstream o;
  o.precision(17);
  o << "dim=" << m.dim << " n=" << m.n() << " row=" << str(m.row) << " col=" << str(m.col) << " w=" << str(m.w)
    << " vol=" << str(m.vol) << " centers=[";
  for (const auto &x : m.c) o << str(x);
  o << "] priority=" << str(m.prio) << " n_bnd=" << str(m.nbnd) << " | card(goal,min,max)=" << g.goal << "," << g.min << ","
    << g.max << " seed=" << g.seed << " ar=" << g.ar << " neigh=" << g.neigh << " fc_iter=" << g.fc_iter
    << " correction=" << g.corr << " thresh=" << g.thresh;
  if (g.aniso) {
    o << " ANISO build=" << g.build << " odd=" << g.odd << " thr=" << g.athr << " max="
      << (g.maxc ? std::to_string(*g.maxc) : std::string("none")) << " coupling=" << g.coupling << " dir=" << g.dir
      << " compliant=" << str(g.compliant);
    if (!g.build) o << " lidx=" << str(g.lidx) << " lines=" << str(g.lines);
  }
  return o.str();
}
inline std::string show(const Result &r) {
  return "f2c=" + str(r.f2c) + " lidx=" + str(r.lidx) + " lines=" + str(r.lines);
}

inline u64 hash_mesh(const Mesh &m) {
  u64 h = mc::mix(17, static_cast<u64>(m.dim));
  h = mc::hash_seq(h, m.row);
  h = mc::hash_seq(h, m.col);
  h = mc::hash_seq(h, m.nbnd);
  for (auto x : m.w) h = mc::mix(h, mc::hash_bits(x));
  for (auto x : m.vol) h = mc::mix(h, mc::hash_bits(x));
  for (auto x : m.prio) h = mc::mix(h, mc::hash_bits(x));
  for (const auto &x : m.c)
    for (auto y : x) h = mc::mix(h, mc::hash_bits(y));
  return h;
}

// ---------------------------------------------------------------- families
// Builds a CSR graph from an adjacency given as list of neighbours per node
// (entry order kept) and a weight function. self[i] adds a self entry.
inline void set_graph(
  Mesh &m, const std::vector<std::vector<UL>> &adj, const std::function<double(UL, UL)> &wf
) {
  m.row.assign(1, 0);
  m.col.clear();
  m.w.clear();
  for (UL i = 0; i < adj.size(); ++i) {
    for (auto j : adj[i]) {
      m.col.push_back(j);
      m.w.push_back(wf(i, j));
    }
    m.row.push_back(m.col.size());
  }
}

// All labelled graphs on n nodes; bits = edge subset in lexicographic order
inline u64 n_graphs(int n) { return u64{1} << (n * (n - 1) / 2); }
inline std::vector<std::vector<UL>> graph_adj(int n, u64 bits) {
  std::vector<std::vector<UL>> a(n);
  int e = 0;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j, ++e)
      if (bits >> e & 1) {
        a[i].push_back(j);
        a[j].push_back(i);
      }
  return a;
}

// Attribute patterns of small graphs
constexpr int kGraphPatterns = 10;
inline Mesh small_graph(int n, u64 bits, int pattern) {
  Mesh m;
  const auto adj = graph_adj(n, bits);
  m.dim = (pattern == 3 || pattern == 6) ? 3 : 2;
  auto wsym = [&](UL i, UL j) -> double {
    const UL a = std::min(i, j), b = std::max(i, j);
    switch (pattern) {
      case 1: return 1. + 0.25 * static_cast<double>(a + 2 * b);
      case 2: return (a + b) % 2 ? 8. : 1.;
      case 4: return 4. - 0.5 * static_cast<double>((a * 3 + b) % 5);
      case 7: return b == a + 1 ? 16. : 0.5;
      default: return 1.;
    }
  };
  set_graph(m, adj, wsym);
  for (int i = 0; i < n; ++i) {
    std::vector<double> c;
    switch (pattern) {
      case 1: c = {static_cast<double>(i), 0.25 * ((i * i) % 3)}; break;
      case 2: c = {static_cast<double>(i % 2), static_cast<double>(i / 2)}; break;
      case 4: c = {0.5 * ((i * 5) % 7), 0.75 * ((i * 3) % 5)}; break;
      case 7: c = {static_cast<double>(i), 0.}; break;
      case 8: c = {0., 0.}; break;  // coincident centres
      case 9: c = {-1. - i % 3, 2. * (i / 3)}; break;
      default: c = {static_cast<double>(i % 3), static_cast<double>(i / 3)};
    }
    if (m.dim == 3) c.push_back(pattern == 6 ? 0.5 * i : static_cast<double>(i % 2));
    m.c.push_back(c);
    switch (pattern) {
      case 1: m.vol.push_back(1. + 0.5 * i); break;
      case 2: m.vol.push_back(i % 2 ? 4. : 1.); break;
      case 4: m.vol.push_back(0.125 * (1 + (i * 3) % 4)); break;
      case 9: m.vol.push_back(static_cast<double>(8 >> (i % 4))); break;
      default: m.vol.push_back(1.);
    }
    const int deg = static_cast<int>(adj[i].size());
    switch (pattern) {
      case 0: m.nbnd.push_back(0); m.prio.push_back(1.); break;
      case 1: m.nbnd.push_back(std::max(0, 4 - deg)); m.prio.push_back(i); break;
      case 2: m.nbnd.push_back((i * 2 + 1) % 3); m.prio.push_back(-i); break;
      case 3: m.nbnd.push_back(std::max(0, 6 - deg)); m.prio.push_back(i % 2); break;
      case 4: m.nbnd.push_back(i % 4); m.prio.push_back(-1. - (i * 2) % 3); break;
      case 5: m.nbnd.push_back(i == n - 1 ? 3 : 0); m.prio.push_back(0.); break;
      case 6: m.nbnd.push_back((n - i) % 5); m.prio.push_back(-0.5); break;
      case 7: m.nbnd.push_back(1); m.prio.push_back(n - i); break;
      case 8: m.nbnd.push_back(2); m.prio.push_back((i * 3) % 4); break;
      default: m.nbnd.push_back(i % 2 ? 7 : 0); m.prio.push_back(i == n / 2 ? 5. : -5.);
    }
  }
  return m;
}

// Cells of an nx*ny*nz box selected by mask (all if ~0), with spacings hx,hy,hz.
// Geometry variants: 0 uniform, 1 stretched in y, 2 stretched in x, graded,
// 3 skewed (sheared centres), 4 graded in y
// Attribute variants: 0 priority 1; 1 volume; 2 index; 3 -index; 4 n_bnd like;
// 5 all zero; 6 alternating negative
// bnd: 0 true number of missing faces, 1 none, 2 all equal 1, 3 only the box
// boundary counts
constexpr int kGeo = 5;
inline Mesh grid(
  int nx, int ny, int nz, u64 mask, int geo, int prio, int bnd, bool self = false, bool is3d = false
) {
  Mesh m;
  m.dim = (nz > 1 || is3d) ? 3 : 2;
  auto hx = [&](int i) -> double { return geo == 2 ? 4. * (1 << i % 4) : 1.; };
  auto hy = [&](int j) -> double { return geo == 1 ? 0.125 : geo == 4 ? 0.0625 * (1 << (j % 5)) : 1.; };
  auto hz = [&](int) -> double { return geo == 2 ? 0.5 : 1.; };
  auto id = [&](int i, int j, int k) { return (k * ny + j) * nx + i; };
  const int N = nx * ny * nz;
  std::vector<long> loc(N, -1);
  std::vector<int> cells;
  for (int q = 0; q < N; ++q)
    if (q >= 64 || (mask >> q & 1)) {
      loc[q] = static_cast<long>(cells.size());
      cells.push_back(q);
    }
  std::vector<double> cxs(nx), cys(ny), czs(nz);
  double s = 0;
  for (int i = 0; i < nx; ++i) { cxs[i] = s + hx(i) / 2; s += hx(i); }
  s = 0;
  for (int j = 0; j < ny; ++j) { cys[j] = s + hy(j) / 2; s += hy(j); }
  s = 0;
  for (int k = 0; k < nz; ++k) { czs[k] = s + hz(k) / 2; s += hz(k); }
  m.row.push_back(0);
  for (size_t q = 0; q < cells.size(); ++q) {
    const int i = cells[q] % nx, j = cells[q] / nx % ny, k = cells[q] / (nx * ny);
    int nb = 0, nbox = 0;
    double selfw = 0;
    auto add = [&](int a, int b, int c, double area) {
      if (a < 0 || a >= nx || b < 0 || b >= ny || c < 0 || c >= nz) {
        ++nb;
        ++nbox;
        selfw += area;
        return;
      }
      if (loc[id(a, b, c)] < 0) {
        ++nb;
        selfw += area;
        return;
      }
      m.col.push_back(static_cast<UL>(loc[id(a, b, c)]));
      m.w.push_back(area);
    };
    const double ax = hy(j) * (m.dim == 3 ? hz(k) : 1.), ay = hx(i) * (m.dim == 3 ? hz(k) : 1.), az = hx(i) * hy(j);
    if (m.dim == 3) add(i, j, k - 1, az);
    add(i, j - 1, k, ay);
    add(i - 1, j, k, ax);
    add(i + 1, j, k, ax);
    add(i, j + 1, k, ay);
    if (m.dim == 3) add(i, j, k + 1, az);
    if (self && nb > 0) {
      m.col.push_back(q);
      m.w.push_back(selfw);
    }
    m.row.push_back(m.col.size());
    m.vol.push_back(hx(i) * hy(j) * (m.dim == 3 ? hz(k) : 1.));
    const double shear = geo == 3 ? 0.25 : 0.;
    std::vector<double> c{cxs[i] + shear * cys[j], cys[j]};
    if (m.dim == 3) c.push_back(czs[k]);
    m.c.push_back(c);
    m.nbnd.push_back(bnd == 0 ? nb : bnd == 1 ? 0 : bnd == 2 ? 1 : nbox);
    const double qd = static_cast<double>(q);
    m.prio.push_back(
      prio == 0 ? 1. : prio == 1 ? m.vol.back() : prio == 2 ? qd : prio == 3 ? -qd : prio == 4 ? nb : prio == 5 ? 0. : (q % 2 ? -1. : -2.)
    );
  }
  return m;
}

// ---------------------------------------------------------------- config sets
constexpr int kSeeds[4] = {0, 1, 10, 11};
constexpr int kNAR = 10;
struct Card { int goal, min, max; };
inline void set_card(Config &g, const Card &c) {
  g.goal = c.goal;
  g.min = c.min;
  g.max = c.max;
}
// correction level: 0 off, k>0: on with threshold k
inline void set_corr(Config &g, int k) {
  g.corr = k > 0;
  g.thresh = std::max(1, k);
}

// A generator enumerates (mesh, configuration) pairs
struct Gen {
  std::string name, what;
  u64 size;
  std::function<void(u64, Mesh &, Config &)> make;
};

inline mc::Space as_space(const Gen &g, const std::function<void(const Mesh &, const Config &, mc::Ctx &)> &f, u64 chunk = 2048) {
  mc::Space s;
  s.name = g.name;
  s.what = g.what;
  s.size = g.size;
  s.chunk = g.name.find("giant") != std::string::npos ? 1 : g.name.find("huge") != std::string::npos ? 2 : chunk;
  auto make = g.make;
  s.run = [make, f](u64 i, mc::Ctx &ctx) {
    Mesh m;
    Config c;
    make(i, m, c);
    f(m, c, ctx);
  };
  s.describe = [make](u64 i) {
    Mesh m;
    Config c;
    make(i, m, c);
    return describe(m, c);
  };
  return s;
}

// ---------------------------------------------------------------- oracles
// groups by coarse id; throws CaseFail if not a gap-free complete partition
inline std::vector<std::vector<UL>> groups(const Mesh &m, const Result &r) {
  if (r.f2c.size() != m.n()) throw mc::CaseFail("fine-to-coarse map has wrong size; " + show(r));
  std::vector<std::vector<UL>> g;
  for (UL i = 0; i < r.f2c.size(); ++i) {
    if (r.f2c[i] >= m.n()) throw mc::CaseFail("cell " + std::to_string(i) + " has no valid coarse id; " + show(r));
    if (r.f2c[i] >= g.size()) g.resize(r.f2c[i] + 1);
    g[r.f2c[i]].push_back(i);
  }
  for (size_t k = 0; k < g.size(); ++k)
    if (g[k].empty()) throw mc::CaseFail("coarse id " + std::to_string(k) + " is unused; " + show(r));
  return g;
}

inline bool connected(const std::vector<std::vector<UL>> &adj, const std::vector<UL> &set) {
  if (set.empty()) return false;
  if (set.size() * 64 < adj.size()) {  // a small part of a large mesh
    std::set<UL> left(set.begin(), set.end());
    std::vector<UL> st{set[0]};
    left.erase(set[0]);
    while (!st.empty()) {
      const UL x = st.back();
      st.pop_back();
      for (auto y : adj[x])
        if (left.erase(y)) st.push_back(y);
    }
    return left.empty();
  }
  std::vector<char> in(adj.size(), 0);
  for (auto x : set) in[x] = 1;
  std::vector<UL> st{set[0]};
  in[set[0]] = 2;
  size_t seen = 0;
  while (!st.empty()) {
    const UL x = st.back();
    st.pop_back();
    ++seen;
    for (auto y : adj[x])
      if (in[y] == 1) {
        in[y] = 2;
        st.push_back(y);
      }
  }
  return seen == set.size();
}

// Number of anisotropic coarse cells of a result
inline size_t n_aniso(const Config &g, const Result &r) {
  if (!g.aniso) return 0;
  // Unusable provided lines: the call falls back to isotropic
  if (!g.build && (g.lidx.size() < 2 || g.lines.empty())) return 0;
  return r.lines.size();
}

// Registers the states (mesh, agglomerated set) and transitions of a run
inline void cover(mc::Ctx &ctx, const Mesh &m, const Result &r, const std::vector<std::vector<UL>> &g) {
  const u64 hm = hash_mesh(m);
  u64 h = hm;
  ctx.state(h);
  ctx.trans(g.size());
  if (m.n() > 5000) return ctx.state(mc::hash_seq(hm, r.f2c));  // one state per run: the sets would take quadratic time
  std::vector<char> done(m.n(), 0);
  for (const auto &cc : g) {
    for (auto x : cc) done[x] = 1;
    h = mc::hash_seq(hm, done);
    ctx.state(h);
  }
}

}  // namespace vf
