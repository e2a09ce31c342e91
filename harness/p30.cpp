// P30: the agglomeration classes driven by hand against the one-call interface.
// TRY: p30_acc.cpp
#include "universe.hpp"
using namespace vf;

namespace vf {
// The map as the agglomerator returns it, if it can; see p30_acc.cpp
std::optional<std::vector<UL>> ask_map(const Agglomerator<UL, double, int> &a);
}  // namespace vf

namespace {
using GraphT = Dual_Graph<UL, double, int>;
using PoolT = Seeds_Pool<UL, double, int>;
using BoxT = Coarse_Cell_Container<UL, double, int>;

std::shared_ptr<PoolT> make_pool(const Mesh &m, int kind) {
  const bool one = kind == CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT || kind == CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT;
  if (kind == CoMMASeedsPoolT::BOUNDARY_PRIORITY || kind == CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT) return std::make_shared<Seeds_Pool_Boundary_Priority<UL, double, int>>(m.nbnd, m.prio, one);
  return std::make_shared<Seeds_Pool_Neighbourhood_Priority<UL, double, int>>(m.nbnd, m.prio, one);
}
std::unique_ptr<Agglomerator_Isotropic<UL, double, int>> make_iso(std::shared_ptr<GraphT> g, std::shared_ptr<BoxT> c, std::shared_ptr<PoolT> p, int dim, const Config &k) {
  const auto ar = static_cast<CoMMAAspectRatioT>(k.ar);
  const auto nt = static_cast<CoMMANeighbourhoodT>(k.neigh);
  if (k.fc_iter > 1) return std::make_unique<Agglomerator_Iterative<UL, double, int>>(g, c, p, dim, ar, nt, k.fc_iter);
  return std::make_unique<Agglomerator_Biconnected<UL, double, int>>(g, c, p, dim, ar, nt, k.fc_iter);
}
// zeros: bit 0 goal, 1 min, 2 max left to the defaults
// told: whether the agglomerator returns the map of its container
Result by_hand(const Mesh &m, const Config &k, int thresh, int zeros, bool &told) {
  auto g = std::make_shared<GraphT>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, k.compliant);
  auto c = std::make_shared<BoxT>(g, thresh);
  auto p = make_pool(m, k.seed);
  Result r;
  r.lidx = k.lidx;
  r.lines = k.lines;
  const int goal = zeros & 1 ? 0 : k.goal, mn = zeros & 2 ? 0 : k.min, mx = zeros & 4 ? 0 : k.max;
  if (k.aniso) {
    std::optional<UL> lim;
    if (k.maxc) lim = static_cast<UL>(*k.maxc);
    Agglomerator_Anisotropic<UL, double, int> a(g, c, p, m.dim, k.athr, k.lidx, k.lines, m.prio, k.build, k.odd, lim, static_cast<CoMMACellCouplingT>(k.coupling), k.dir);
    a.agglomerate_one_level(goal, mn, mx, m.prio, false);
    a.export_anisotropic_lines(1, r.lidx, r.lines);
  } else {
    p->initialize();
  }
  auto i = make_iso(g, c, p, m.dim, k);
  i->agglomerate_one_level(goal, mn, mx, m.prio, k.corr);
  for (const auto &x : c->_fc_2_cc) r.f2c.push_back(x.value());
  const auto asked = ask_map(*i);
  told = asked.value_or(r.f2c) == r.f2c;
  return r;
}
}  // namespace

int main(int argc, char **argv) {
  const int c_z = mc::counter("runs with cardinalities left at zero"), c_an = mc::counter("runs with anisotropic lines"), c_ref = mc::counter("refused constructions"), c_two = mc::counter("runs with several coarse cells");
  auto f = [=](const Mesh &m0, const Config &g0, mc::Ctx &ctx) {
    Mesh m = m0;
    for (auto &b : m.nbnd) b = std::min(b, m.dim);
    Config g = g0;
    // Missing lines are the call's business
    const bool missing = g.aniso && !g.build && g.lidx.size() < 2;
    const int goal = m.dim == 2 ? 4 : 8, mn = m.dim == 2 ? 3 : 6, mx = m.dim == 2 ? 5 : 10;
    int prev = -1;
    // which cardinalities can be left to the defaults
    for (int z = 0; z < 8; ++z) {
      Config e = g;
      if (z & 1) e.goal = goal;
      if (z & 2) e.min = mn;
      if (z & 4) e.max = mx;
      if (!(e.min <= e.goal && e.goal <= e.max)) continue;
      if (g.aniso && z && z != 7) continue;
      const auto r = call(m, e);
      if (missing) e.aniso = false;
      bool told = true;
      const auto h = by_hand(m, e, std::min(e.thresh, e.min - 1), z, told);
      if (!told) ctx.fail("the isotropic agglomerator returns another map than " + str(h.f2c));
      if (h.f2c != r.f2c) ctx.fail("by hand " + show(h) + ", by the call " + show(r) + " (cardinalities left out: " + std::to_string(z) + ")");
      if (e.aniso && (h.lidx != r.lidx || h.lines != r.lines)) ctx.fail("lines by hand " + show(h) + ", by the call " + show(r));
      ctx.trans();
      if (z) ctx.count(c_z);
      if (e.aniso && !h.lines.empty()) ctx.count(c_an);
      if (!h.f2c.empty() && *std::max_element(h.f2c.begin(), h.f2c.end()) > 0) ctx.count(c_two);
      const auto gr = groups(m, r);
      if (prev < 0) cover(ctx, m, r, gr);
      prev = z;
    }
    ctx.trace();
  };
  UOpt o;
  o.thorough = mc::is_thorough();
  o.dev = 2;
  o.corr = o.thorough ? std::vector<int>{0, 2} : std::vector<int>{2};
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o)) {
    if (!o.thorough && (u.name == "graphs5" || u.name == "an3x3")) continue;
    sp.push_back(as_space(u, f));
  }
  {
    mc::Space s;
    s.name = "refused";
    s.what = "dimensions -1..6, aspect-ratio kinds -1..12 on both isotropic classes and the anisotropic one";
    const Radix r{8, 14, 3};
    s.size = r.total();
    s.chunk = 16;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const int dim = d[0] - 1, ar = d[1] - 1;
      const Mesh m = grid(3, 2, 1, ~u64{0}, 0, 0, 0, false, dim == 3);
      auto g = std::make_shared<GraphT>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, all_cells(m.n()));
      auto c = std::make_shared<BoxT>(g, 1);
      auto p = make_pool(m, 0);
      Config k;
      k.ar = ar;
      k.fc_iter = d[2] + 1;
      int got = 0;
      try {
        if (d[2] == 2)
          Agglomerator_Anisotropic<UL, double, int>(g, c, p, dim, 4., {}, {}, m.prio, true, true, std::nullopt, CoMMACellCouplingT::MAX_WEIGHT, true);
        else
          make_iso(g, c, p, dim, k);
      } catch (const std::range_error &) {
        got = 1;
      } catch (const std::invalid_argument &) {
        got = 2;
      }
      const int want = dim != 2 && dim != 3 ? 1 : d[2] < 2 && (ar < 0 || ar >= kNAR) ? 2 : 0;
      if (got != want) ctx.fail("outcome " + std::to_string(got) + " instead of " + std::to_string(want) + " (0 accepted, 1 range error, 2 invalid argument)");
      if (got) ctx.count(c_ref);
      ctx.state(mc::mix(99, i));
      ctx.trans();
      ctx.trace();
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      return "dimension " + std::to_string(d[0] - 1) + " aspect ratio " + std::to_string(d[1] - 1) + " class " + std::to_string(d[2]);
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P30";
  opt.rule = "map and lines of the classes driven by hand equal those of the call with the cardinalities spelled out";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "pairs of runs compared";
  opt.traces_meaning = "implementation runs judged completely";
  return mc::drive(argc, argv, opt, sp);
}
