// TRY: p19_dims.cpp
#include "growth.hpp"
#include "universe.hpp"
#include "shapes.hpp"
using namespace vf;

std::vector<mc::Space> dimension_spaces();

using DG = Dual_Graph<UL, double, int>;
using CF = CellFeatures<UL, double, int>;
using ARC = ARComputer<UL, double, int>;

template<unsigned int dim>
static std::shared_ptr<ARC> make(int kind, const std::shared_ptr<DG> &g) {
  switch (kind) {
    case 0: return std::make_shared<ARDiamOverRadius<UL, double, int, dim>>(g);
    case 1: return std::make_shared<ARDiamOverMinEdge<UL, double, int>>(g);
    case 2: return std::make_shared<ARDiameter<UL, double, int>>(g);
    case 3: return std::make_shared<AROverMeasure<UL, double, int>>(g);
    case 4: return std::make_shared<AROverInternalWeights<UL, double, int>>(g);
    case 5: return std::make_shared<ARExternalWeightOverRadius<UL, double, int, dim>>(g);
    case 6: return std::make_shared<ARExternalWeights<UL, double, int>>(g);
    case 7: return std::make_shared<ARMaxBaryDistanceOverRadius<UL, double, int, dim>>(g);
    case 8: return std::make_shared<ARMaxOverMinBaryDistance<UL, double, int>>(g, 1e-12);
    default: return std::make_shared<ARExternalWeightOverRadius<UL, double, int, 1>>(g);
  }
}

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_orders = mc::counter("complete insertion orders"), c_add = mc::counter("additions compared");
  // depth-first over all insertion orders that keep each addition adjacent
  auto explore = [=](const Mesh &m, int kind, size_t depth, mc::Ctx &ctx) {
    const Geo q(m);
    const auto adj = adjacency(m);
    const auto g = std::make_shared<DG>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
    const auto arc = m.dim == 2 ? make<2>(kind, g) : make<3>(kind, g);
    const u64 hm = mc::mix(hash_mesh(m), static_cast<u64>(kind));
    std::vector<UL> seq;
    std::function<void(const CF &)> rec = [&](const CF &feats) {
      u64 bits = 0;
      for (auto x : seq) bits |= u64{1} << x;
      ctx.state(mc::mix(hm, bits));
      bool leaf = true;
      if (seq.size() < depth) {
        std::set<UL> cand;
        for (auto x : seq)
          for (auto y : adj[x])
            if (!(bits >> y & 1)) cand.insert(y);
        const std::unordered_set<UL> cc(seq.begin(), seq.end());
        for (auto y : cand) {
          leaf = false;
          int shared = -1;
          double ar = -1;
          CF out{};
          arc->compute_and_update_features(y, feats, cc, shared, ar, out);
          ctx.trans();
          ctx.count(c_add);
          seq.push_back(y);
          const auto ref = features(q, seq);
          int sh = 0;
          for (auto z : adj[y]) sh += static_cast<int>(cc.count(z));
          auto bad = [&](const std::string &w, double got, double want) {
            std::ostringstream o;
            o.precision(17);
            o << "kind " << kind << ": " << w << " after adding " << str(seq) << " is " << got << " instead of " << want;
            ctx.fail(o.str());
          };
          if (shared != sh) bad("number of shared faces", shared, sh);
          const double want = aspect_ratio(q, seq, kind);
          if (!near(ar, want)) bad("aspect ratio", ar, want);
          if (!near(out._measure, ref.measure)) bad("measure", out._measure, ref.measure);
          if (out._n_internal_faces != ref.faces) bad("number of internal faces", out._n_internal_faces, ref.faces);
          if (kind <= 2) {
            if (!near(out._sq_diam, ref.diam2)) bad("squared diameter", out._sq_diam, ref.diam2);
            if (!near(out._sq_min_edge, ref.edge2)) bad("squared minimum edge", out._sq_min_edge, ref.edge2);
          }
          if (kind >= 4 && kind != 7 && kind != 8) {
            if (std::fabs(out._external_weights - ref.ext) > 1e-9 * (std::fabs(ref.ext) + 2 * ref.in)) bad("external weights", out._external_weights, ref.ext);
            if (!near(out._internal_weights, ref.in)) bad("internal weights", out._internal_weights, ref.in);
          }
          if (kind == 8)
            for (const auto &[i, n] : ref.outer)
              if (out._external_facets.at(i) != n) bad("external facets of cell " + std::to_string(i), out._external_facets.at(i), n);
          rec(out);
          seq.pop_back();
        }
      }
      if (leaf) {
        ctx.trace();
        ctx.count(c_orders);
      }
    };
    for (UL s = 0; s < m.n(); ++s) {
      seq = {s};
      rec(CF(s, g));
    }
  };
  std::vector<mc::Space> sp;
  auto add = [&](const std::string &name, const std::string &what, u64 n, const std::function<Mesh(u64)> &mk, size_t depth, u64 chunk) {
    mc::Space s;
    s.name = name;
    s.what = what;
    s.size = n * kNAR;
    s.chunk = chunk;
    s.run = [=](u64 i, mc::Ctx &ctx) { explore(mk(i / kNAR), static_cast<int>(i % kNAR), depth, ctx); };
    s.describe = [=](u64 i) { return "kind=" + std::to_string(i % kNAR) + " " + describe(mk(i / kNAR), Config{}); };
    sp.push_back(s);
  };
  for (int n = 2; n <= 5; ++n) {
    static const int pats[5] = {1, 2, 3, 4, 9};
    const int np = n == 5 && !T ? 3 : 5;
    add("graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x attribute patterns x 10 kinds x all connected insertion orders", n_graphs(n) * static_cast<u64>(np),
        [=](u64 i) { return small_graph(n, i / static_cast<u64>(np), pats[i % static_cast<u64>(np)]); }, 5, 64);
  }
  add("grids", "2D and 3D grids (uniform, stretched, graded; with boundary faces) x 10 kinds x all connected insertion orders of up to 7 (8 thorough) cells", 8,
      [=](u64 i) -> Mesh {
        switch (i) {
          case 0: return grid(3, 3, 1, ~u64{0}, 0, 0, 0);
          case 1: return grid(3, 3, 1, ~u64{0}, 2, 0, 0);
          case 2: return grid(4, 2, 1, ~u64{0}, 4, 0, 0);
          case 3: return grid(2, 2, 2, ~u64{0}, 0, 0, 0);
          case 4: return grid(3, 2, 2, ~u64{0}, 2, 0, 0);
          case 5: return grid(3, 3, 1, 0x1EF, 3, 0, 0);
          case 6: return grid(5, 1, 1, ~u64{0}, 2, 0, 1);
          default: return grid(2, 2, 2, 0x7F, 4, 0, 3);
        }
      },
      T ? 8 : 7, 1);
  add("scaled", "a 3x3 grid, a 2x2x2 grid and a star of 13 cells with weights and volumes times 2^-120, 2^-40, 2^40 and 2^120 (boundary faces 0..3) x 10 kinds x all connected insertion orders of up to 4 cells", 12,
      [=](u64 i) -> Mesh {
        static const int ex[4] = {-120, -40, 40, 120};
        Mesh m = i % 3 == 0 ? grid(3, 3, 1, ~u64{0}, 4, 0, 3) : i % 3 == 1 ? grid(2, 2, 2, ~u64{0}, 2, 0, 0) : grid(1, 13, 1, ~u64{0}, 0, 0, 3);
        if (i % 3 == 2) {
          std::vector<std::vector<UL>> adj(13);
          for (UL k = 0; k < 12; ++k) {
            adj[12].push_back(k);
            adj[k].push_back(12);
          }
          set_graph(m, adj, [](UL a, UL b) { return 1. + 0.5 * static_cast<double>((a + b) % 5); });
        }
        for (auto &x : m.w) x = std::ldexp(x, ex[i / 3]);
        for (auto &x : m.vol) x = std::ldexp(x, ex[i / 3]);
        return m;
      },
      4, 1);
  {
    // Larger sets, one cell after the other in four orders
    static const UL sizes[9] = {8, 12, 13, 16, 17, 20, 24, 33, 48};
    const int ns = T ? 9 : 7;
    static const int attrs[4] = {0, 1, 2, 3};
    const Radix r{kScaleShapes, static_cast<u64>(ns), 4, 2, kNAR, 4};
    mc::Space s;
    s.name = "large";
    s.what = "12 shapes of 8 to " + std::to_string(sizes[ns - 1]) + " cells x 4 attribute patterns x 2D/3D x 10 kinds, all the cells added neighbours first from the first, middle or last one, or each next to the previous one where possible";
    s.size = r.total();
    s.chunk = 16;
    auto mk = [=](const std::vector<int> &d) {
      Mesh m = scale_mesh(d[0], sizes[d[1]], attrs[d[2]], d[3] ? 3 : 2);
      // distinct centres
      for (UL k = 0; k < m.n(); ++k) m.c[k][1] += m.c[1][0] * 0.125 * static_cast<double>(k * k % 17);
      return m;
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const Mesh m = mk(d);
      const int kind = d[4];
      const Geo q(m);
      const auto adj = adjacency(m);
      const auto g = std::make_shared<DG>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
      const auto arc = m.dim == 2 ? make<2>(kind, g) : make<3>(kind, g);
      const UL first = d[5] == 0 ? 0 : d[5] == 2 ? m.n() - 1 : m.n() / 2;
      std::vector<UL> seq{first};
      std::vector<char> in(m.n(), 0);
      in[first] = 1;
      CF feats(first, g);
      for (;;) {
        long y = -1;
        for (size_t k = 0; k < seq.size() && y < 0; ++k)
          for (auto z : adj[d[5] == 3 ? seq[seq.size() - 1 - k] : seq[k]])
            if (!in[z] && y < 0) y = static_cast<long>(z);
        if (y < 0) break;
        const UL x = static_cast<UL>(y);
        const std::unordered_set<UL> cc(seq.begin(), seq.end());
        int shared = -1;
        double ar = -1;
        CF out{};
        arc->compute_and_update_features(x, feats, cc, shared, ar, out);
        feats = out;
        ctx.trans();
        ctx.count(c_add);
        int sh = 0;
        for (auto z : adj[x]) sh += in[z];
        seq.push_back(x);
        in[x] = 1;
        const double want = aspect_ratio(q, seq, kind);
        const auto ref = features(q, seq);
        const std::string where = " after " + std::to_string(seq.size()) + " cells, kind " + std::to_string(kind);
        if (shared != sh) ctx.fail(std::to_string(shared) + " shared faces instead of " + std::to_string(sh) + where);
        // what is left outside of a whole mesh is rounding
        const bool rounding = kind >= 4 && kind != 7 && kind != 8 && ref.ext < 1e-6 * ref.in;
        if (!rounding && !near(ar, want)) ctx.fail("aspect ratio " + std::to_string(ar) + " instead of " + std::to_string(want) + where);
        if (!near(out._measure, ref.measure)) ctx.fail("wrong measure" + where);
        if (out._n_internal_faces != ref.faces) ctx.fail("wrong number of internal faces" + where);
        if (kind <= 2 && (!near(out._sq_diam, ref.diam2) || !near(out._sq_min_edge, ref.edge2))) ctx.fail("wrong diameter or minimum edge" + where);
        if (kind >= 4 && kind != 7 && kind != 8 && (std::fabs(out._external_weights - ref.ext) > 1e-9 * (std::fabs(ref.ext) + 2 * ref.in) || !near(out._internal_weights, ref.in))) ctx.fail("wrong internal or external weights" + where);
        ctx.state(mc::hash_seq(mc::mix(i / (kNAR * 4), static_cast<u64>(kind)), seq));
      }
      ctx.trace();
      ctx.count(c_orders);
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      return "kind=" + std::to_string(d[4]) + " order " + std::to_string(d[5]) + " " + describe(mk(d), Config{});
    };
    sp.push_back(s);
  }
  for (auto &s : dimension_spaces()) sp.push_back(s);
  mc::Options opt;
  opt.property = "P19";
  opt.rule = "features and aspect ratio returned after each addition equal their definition on the whole set";
  opt.states_meaning = "distinct (mesh, kind, cell set)";
  opt.transitions_meaning = "additions executed on the implementation and compared with the definition";
  opt.traces_meaning = "complete insertion orders replayed";
  return mc::drive(argc, argv, opt, sp);
}
