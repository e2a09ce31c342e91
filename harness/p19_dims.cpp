#include "mc.hpp"
#ifdef STUB
std::vector<mc::Space> dimension_spaces() { return {}; }
#else
#include "growth.hpp"
#include "universe.hpp"
using namespace vf;
namespace {
using DG = Dual_Graph<UL, double, int>;
using CF = CellFeatures<UL, double, int>;
using ARC = ARComputer<UL, double, int>;

// The kinds that divide by the radius of the cell, in dimensions other than
// those of the meshes: lengths to the power 2 dim over squared measures
template<unsigned int dim>
void orders(const Mesh &m, mc::Ctx &ctx, u64 hm) {
  const Geo q(m);
  const auto adj = adjacency(m);
  const auto g = std::make_shared<DG>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
  const ARDiamOverRadius<UL, double, int, dim> diam(g);
  const ARExternalWeightOverRadius<UL, double, int, dim> ext(g);
  const ARMaxBaryDistanceOverRadius<UL, double, int, dim> bary(g);
  const auto over = [](double x2, double v) { return dim < 2 ? std::sqrt(x2) / v : std::pow(x2, dim) / (v * v); };
  std::vector<UL> seq;
  std::function<void(const CF &, const CF &, const CF &)> rec = [&](const CF &fd, const CF &fe, const CF &fb) {
    u64 bits = 0;
    for (auto x : seq) bits |= u64{1} << x;
    ctx.state(mc::mix(mc::mix(hm, dim), bits));
    const auto f = features(q, seq);
    if (!near(fd.template get_radius<dim>(), std::pow(f.measure, 1. / dim))) ctx.fail("radius of " + str(seq));
    std::set<UL> cand;
    for (auto x : seq)
      for (auto y : adj[x])
        if (!(bits >> y & 1)) cand.insert(y);
    if (seq.size() == 5 || cand.empty()) {
      ctx.trace();
      return;
    }
    const std::unordered_set<UL> cc(seq.begin(), seq.end());
    for (auto y : cand) {
      int shared = -1;
      double a = -1, b = -1, c = -1;
      CF nd{}, ne{}, nb{};
      diam.compute_and_update_features(y, fd, cc, shared, a, nd);
      ext.compute_and_update_features(y, fe, cc, shared, b, ne);
      bary.compute_and_update_features(y, fb, cc, shared, c, nb);
      ctx.trans(3);
      seq.push_back(y);
      const auto r = features(q, seq);
      auto bc = r.sum;
      for (auto &x : bc) x /= r.measure;
      double far = 0;
      for (auto i : seq) far = std::max(far, q.d2(bc, m.c[i]));
      auto cmp = [&](const char *w, double got, double want) {
        if (near(got, want, 1e-8)) return;
        std::ostringstream o;
        o.precision(17);
        o << w << " in dimension " << dim << " after adding " << str(seq) << " is " << got << " instead of " << want;
        ctx.fail(o.str());
      };
      cmp("diameter over radius", a, over(r.diam2, r.measure));
      cmp("external weights over radius", b, dim < 2 ? r.ext / r.measure : std::pow(r.ext, dim) / std::pow(r.measure, dim - 1));
      cmp("distance from the barycentre over radius", c, over(far, r.measure));
      rec(nd, ne, nb);
      seq.pop_back();
    }
  };
  for (UL s = 0; s < m.n(); ++s) {
    seq = {s};
    rec(CF(s, g), CF(s, g), CF(s, g));
  }
}
}  // namespace

std::vector<mc::Space> dimension_spaces() {
  auto mk = [](u64 i) -> Mesh {
    if (i < n_graphs(4) * 2) return small_graph(4, i / 2, i % 2 ? 3 : 2);
    switch (i - n_graphs(4) * 2) {
      case 0: return grid(3, 3, 1, ~u64{0}, 2, 0, 0);
      case 1: return grid(2, 2, 2, ~u64{0}, 2, 0, 0);
      default: return grid(5, 1, 1, ~u64{0}, 4, 0, 0);
    }
  };
  mc::Space s;
  s.name = "dimensions";
  s.what = "labelled graphs on 4 nodes and grids x dimensions 1, 4 and 5 of the aspect ratio x all connected insertion orders of up to 5 cells";
  s.size = (n_graphs(4) * 2 + 3) * 3;
  s.chunk = 8;
  s.run = [=](u64 i, mc::Ctx &ctx) {
    const Mesh m = mk(i / 3);
    const u64 h = mc::mix(hash_mesh(m), 77);
    if (i % 3 == 0)
      orders<1>(m, ctx, h);
    else if (i % 3 == 1)
      orders<4>(m, ctx, h);
    else
      orders<5>(m, ctx, h);
  };
  s.describe = [=](u64 i) { return "dimension=" + std::to_string(i % 3 ? 3 + i % 3 : 1) + " " + describe(mk(i / 3), Config{}); };
  return {s};
}
#endif
