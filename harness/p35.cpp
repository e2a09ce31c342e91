// P35: which cells are tagged anisotropic, their order and their reference weights.
#include <deque>
#include "scale.hpp"
#include "graphs.hpp"
using namespace vf;

namespace {
const std::vector<double> kThr{-1., 0., 1., 2., 3., 4., 9., 10.};
struct Case {
  double thr;
  int coupling, preserving;
};
}  // namespace

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_t = mc::counter("tagged cells"), c_u = mc::counter("compliant cells not tagged"), c_p2 = mc::counter("cells kept out by the 2D boundary-layer rule"), c_p3 = mc::counter("cells kept out by the 3D boundary-layer rule"),
            c_b2 = mc::counter("boundary cells with 3 neighbours tagged"), c_b3 = mc::counter("boundary cells with 5 neighbours tagged"), c_amb = mc::counter("cells whose ratio is within rounding of the threshold (skipped)");
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    bool self = false;
    for (UL i = 0; i < m.n(); ++i)
      for (UL k = m.row[i]; k < m.row[i + 1]; ++k) self = self || m.col[k] == i;
    if (self && (g.athr < 0 || g.coupling == 1)) return;  // self entries have no distance and may count as weights
    // g.seed: preserving; g.athr, g.coupling, g.compliant as named
    Dual_Graph<UL, double, int> gr(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, g.compliant);
    std::vector<double> alt, mx(m.n(), 0.);
    std::vector<bool> tag(m.n(), false);
    std::deque<UL> pool;
    gr.tag_anisotropic_cells(alt, mx, tag, pool, g.athr, m.prio, static_cast<CoMMACellCouplingT>(g.coupling), static_cast<UL>(g.seed));
    ctx.trans();
    ctx.trace();
    u64 h = mc::mix(hash_mesh(m), mc::hash_bits(g.athr));
    h = mc::hash_seq(mc::mix(h, static_cast<u64>(g.coupling * 4 + g.seed)), g.compliant);
    ctx.state(h);
    std::vector<char> comp(m.n(), 0), skip(m.n(), 0);
    for (auto i : g.compliant) comp[i] = 1;
    std::vector<UL> want;
    for (UL i = 0; i < m.n(); ++i) {
      bool t = false;
      if (comp[i]) {
        double hi = 0, lo = 0, wd = 0;
        int nb = 0;
        for (UL k = m.row[i]; k < m.row[i + 1]; ++k) {
          const UL j = m.col[k];
          if (j == i) continue;
          hi = nb ? std::max(hi, m.w[k]) : m.w[k];
          lo = nb ? std::min(lo, m.w[k]) : m.w[k];
          ++nb;
          double d = 0;
          for (size_t x = 0; x < m.c[i].size(); ++x) d += (m.c[i][x] - m.c[j][x]) * (m.c[i][x] - m.c[j][x]);
          wd = std::max(wd, 1. / d);
          if (g.coupling == 1 && std::fabs(alt[k] - 1. / d) > 1e-12 / d) ctx.fail("coupling of cells " + std::to_string(i) + " and " + std::to_string(j) + " is " + std::to_string(alt[k]));
        }
        const double ref = g.coupling == 1 ? wd : hi;
        if (std::fabs(mx[i] - ref) > 1e-12 * ref) ctx.fail("reference weight of cell " + std::to_string(i) + " is " + std::to_string(mx[i]));
        if (g.athr < 0)
          t = true;
        else if (nb == 0)
          skip[i] = 1;  // no face: no ratio
        else {
          const double ar = m.dim == 2 ? hi / lo : std::sqrt(hi / lo);
          if (ar != g.athr && std::fabs(ar - g.athr) < 1e-12 * g.athr) {
            skip[i] = 1;
            ctx.count(c_amb);
          }
          t = ar >= g.athr;
          if (t && (g.seed == 2 || g.seed == 3)) {
            const int full = g.seed == 2 ? 4 : 6;
            t = nb == full || (nb == full - 1 && m.nbnd[i] > 0);
            if (t && nb == full - 1) ctx.count(g.seed == 2 ? c_b2 : c_b3);
            if (!t) ctx.count(g.seed == 2 ? c_p2 : c_p3);
          }
        }
        if (!skip[i]) ctx.count(t ? c_t : c_u);
      }
      if (skip[i]) t = tag[i];
      if (tag[i] != t) ctx.fail("cell " + std::to_string(i) + (t ? " is not" : " is") + " tagged, preserving " + std::to_string(g.seed));
      if (t) want.push_back(i);
    }
    std::stable_sort(want.begin(), want.end(), [&](UL a, UL b) { return m.prio[a] > m.prio[b]; });
    if (std::vector<UL>(pool.begin(), pool.end()) != want) ctx.fail("order " + str(pool) + " instead of " + str(want));
    if (g.coupling == 0 && !alt.empty()) ctx.fail("alternative weights with coupling by weight");
  };
  std::vector<mc::Space> sp;
  // All labelled graphs x all sets of compliant cells
  for (int n = 1; n <= (T ? 5 : 4); ++n) {
    const Radix r{n_graphs(n), kGraphPatterns, u64{1} << n, kThr.size(), 2, 3};
    sp.push_back(as_space({"graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x 10 attribute patterns x every set of compliant cells x 8 thresholds x 2 couplings x preserving 0/2/3", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = small_graph(n, d[0], d[1]);
                             g.compliant = subset_of(static_cast<u64>(d[2]), m.n());
                             g.athr = kThr[d[3]];
                             g.coupling = static_cast<int>(d[4]);
                             g.seed = d[5] == 0 ? 0 : static_cast<int>(d[5]) + 1;
                           }}, f));
  }
  // A hub with 0..7 neighbours, every weighting of its faces
  for (int deg = 0; deg <= 7; ++deg) {
    u64 ws = 1;
    for (int k = 0; k < deg; ++k) ws *= 3;
    const Radix r{ws, 3, 2, kThr.size(), 2, 3, 2, 3};
    sp.push_back(as_space({"hub" + std::to_string(deg), "a cell with " + std::to_string(deg) + " neighbours, faces weighing 1, 4 or 9 each x 3 boundary counts x 2D/3D x 8 thresholds x 2 couplings x preserving 0/2/3 x hub first or last x 3 priorities", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             const UL n = static_cast<UL>(deg) + 1, hub = d[6] ? n - 1 : 0;
                             std::vector<std::vector<UL>> adj(n);
                             for (UL j = 0; j < n; ++j)
                               if (j != hub) {
                                 adj[hub].push_back(j);
                                 adj[j].push_back(hub);
                               }
                             auto wf = [&](UL a, UL b) {
                               UL k = a == hub ? b : a;
                               if (k > hub) --k;
                               u64 x = static_cast<u64>(d[0]);
                               while (k--) x /= 3;
                               return x % 3 == 0 ? 1. : x % 3 == 1 ? 4. : 9.;
                             };
                             m.dim = d[2] ? 3 : 2;
                             m.vol.assign(n, 1.);
                             set_graph(m, adj, wf);
                             m.c.clear();
                             m.prio.assign(n, 0.);
                             for (UL j = 0; j < n; ++j) {
                               const double x = j == hub ? 0. : static_cast<double>(j) + 1;
                               m.c.push_back(m.dim == 2 ? std::vector<double>{x, x / 2} : std::vector<double>{x, x / 2, -x});
                               m.prio[j] = d[7] == 0 ? 0. : d[7] == 1 ? static_cast<double>(j % 3) : static_cast<double>(n - j);
                             }
                             m.nbnd.assign(n, 0);
                             m.nbnd[hub] = static_cast<int>(d[1]);
                             g.compliant = all_cells(n);
                             g.athr = kThr[d[3]];
                             g.coupling = static_cast<int>(d[4]);
                             g.seed = d[5] == 0 ? 0 : static_cast<int>(d[5]) + 1;
                           }}, f));
  }
  // Hubs with more neighbours, one or two faces apart from the others
  for (int deg : {8, 9, 10, 11, 12, 16, 17, 24, 33, 64}) {
    const UL D = static_cast<UL>(deg);
    const Radix r{D, 4, 2, kThr.size(), 2, 3, 2};
    sp.push_back(as_space({"widehub" + std::to_string(deg), "a cell with " + std::to_string(deg) + " neighbours, every position of one lighter or heavier face or of a pair of both x 2D/3D x 8 thresholds x 2 couplings x preserving 0/2/3 x hub first or last", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             const UL n = D + 1, hub = d[6] ? n - 1 : 0;
                             std::vector<std::vector<UL>> adj(n);
                             for (UL j = 0; j < n; ++j)
                               if (j != hub) {
                                 adj[hub].push_back(j);
                                 adj[j].push_back(hub);
                               }
                             auto wf = [&](UL a, UL b) {
                               UL k = a == hub ? b : a;
                               if (k > hub) --k;
                               const UL at = static_cast<UL>(d[0]);
                               if (k == at) return d[1] == 1 ? 90. : 1.;
                               if (d[1] == 2 && k == (at + 1) % D) return 81.;
                               if (d[1] == 3 && k == (at + D - 1) % D) return 16.;
                               return 9.;
                             };
                             m.dim = d[2] ? 3 : 2;
                             m.vol.assign(n, 1.);
                             set_graph(m, adj, wf);
                             m.c.clear();
                             m.prio.assign(n, 0.);
                             for (UL j = 0; j < n; ++j) {
                               const double x = j == hub ? 0. : static_cast<double>((j + static_cast<UL>(d[0])) % n) + 1;
                               m.c.push_back(m.dim == 2 ? std::vector<double>{x, x / 2} : std::vector<double>{x, x / 2, -x});
                               m.prio[j] = static_cast<double>(j % 3);
                             }
                             m.nbnd.assign(n, 0);
                             g.compliant = all_cells(n);
                             g.athr = kThr[d[3]];
                             g.coupling = static_cast<int>(d[4]);
                             g.seed = d[5] == 0 ? 0 : static_cast<int>(d[5]) + 1;
                           }}, f, 64));
  }
  // Grids with self entries (coupling by weight)
  {
    const Radix r{511, kGeo, 4, 2, kThr.size() - 1, 3};
    sp.push_back(as_space({"sub3x3", "all cell subsets of a 3x3 grid with self entries x 5 geometries x 4 boundary counts x 2D/3D x 7 thresholds x preserving 0/2/3", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = grid(3, 3, 1, static_cast<u64>(d[0] + 1), d[1], d[1], d[2], 1, d[3]);
                             g.compliant = all_cells(m.n());
                             g.athr = kThr[d[4] + 1];
                             g.coupling = 0;
                             g.seed = d[5] == 0 ? 0 : static_cast<int>(d[5]) + 1;
                           }}, f));
  }
  {
    const Radix r{kBig, kThr.size(), 2, 3, 2};
    sp.push_back(as_space({"big", "12 meshes of up to 64 cells x 8 thresholds x 2 couplings x preserving 0/2/3 x all or every other cell compliant", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = big_mesh(static_cast<int>(d[0]));
                             g.compliant.clear();
                             for (UL k = 0; k < m.n(); k += d[4] ? 2 : 1) g.compliant.push_back(k);
                             g.athr = kThr[d[1]];
                             g.coupling = static_cast<int>(d[2]);
                             g.seed = d[3] == 0 ? 0 : static_cast<int>(d[3]) + 1;
                           }}, f, 16));
  }
  {
    const Radix r{kScaleShapes, kScaleSizes.size(), kScaleAttrs, kThr.size(), 2, 3};
    sp.push_back(as_space({"scale", std::string(kScaleWhat) + " x 6 attribute patterns x 8 thresholds x 2 couplings x preserving 0/2/3, two thirds of the cells compliant", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = scale_mesh(d[0], kScaleSizes[d[1]], d[2], d[3] % 2 ? 3 : 2);
                             g.compliant.clear();
                             for (UL k = 0; k < m.n(); ++k)
                               if (k % 3 != 1) g.compliant.push_back(k);
                             g.athr = kThr[d[3]];
                             g.coupling = static_cast<int>(d[4]);
                             g.seed = d[5] == 0 ? 0 : static_cast<int>(d[5]) + 1;
                           }}, f, 64));
  }
  // Weights, distances and thresholds of very different magnitudes
  {
    static const double ws[7] = {1., 1e-150, 1e-9, 0x1p-40, 3e4, 1e9, 1e150};
    static const double ts[12] = {-1e9, -1e-9, 1e-9, 0.5, 1., 1.5, 1e4, 1e8, 0x1p40, 1e12, 1e20, 1e200};
    static const double xs[4] = {1., 1e-40, 1e-6, 1e40};
    const Radix r{343, 12, 4, 2, 2, 3};
    sp.push_back(as_space({"ranges", "a path of four cells, weights of its faces from 7 magnitudes between 1e-150 and 1e150 x 12 thresholds from -1e9 to 1e200 x spacings 1e-40, 1e-6, 1, 1e40 x 2D/3D x 2 couplings x priorities equal, huge or a last bit apart", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             const int c[3] = {d[0] % 7, d[0] / 7 % 7, d[0] / 49};
                             m.dim = d[3] ? 3 : 2;
                             set_graph(m, {{1}, {0, 2}, {1, 3}, {2}}, [&](UL a, UL b) { return ws[c[std::min(a, b)]]; });
                             for (UL k = 0; k < 4; ++k) {
                               const double x = xs[d[2]] * static_cast<double>(k * k + 1);
                               m.vol.push_back(1.);
                               m.c.push_back(m.dim == 2 ? std::vector<double>{x, -x} : std::vector<double>{x, -x, 2 * x});
                               m.nbnd.push_back(0);
                               m.prio.push_back(d[5] == 0 ? 0. : d[5] == 1 ? 1e300 * (static_cast<double>(k % 3) - 1.) : 1. + std::ldexp(static_cast<double>(k * 3 % 4), -52));
                             }
                             g.compliant = all_cells(4);
                             g.athr = ts[d[1]];
                             g.coupling = d[4];
                             g.seed = 0;
                           }}, f));
  }
  mc::Options opt;
  opt.property = "P35";
  opt.rule = "the tagged cells, their order and the reference weights equal the definitions of the statement";
  opt.states_meaning = "distinct graphs, compliant sets, thresholds, couplings and modes";
  opt.transitions_meaning = "taggings";
  opt.traces_meaning = "taggings compared cell by cell";
  return mc::drive(argc, argv, opt, sp);
}
