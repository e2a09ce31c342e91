#include "scale.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_f = mc::counter("filter calls"), c_nf = mc::counter("filter calls with a non-empty answer"),
            c_c = mc::counter("compactness queries"), c_n = mc::counter("outside-neighbour queries");
  std::vector<mc::Space> sp;
  auto add = [&](const Gen &g, std::function<void(u64, const Mesh &, mc::Ctx &)> f, u64 chunk = 512) {
    mc::Space s;
    s.name = g.name;
    s.what = g.what;
    s.size = g.size;
    s.chunk = chunk;
    auto make = g.make;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      Config c;
      make(i, m, c);
      f(i, m, ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      Config c;
      make(i, m, c);
      return describe(m, c);
    };
    sp.push_back(s);
  };
  // --- filter: every requested subset of {-2..7}
  auto filt = [=](u64, const Mesh &m, mc::Ctx &ctx) {
    const auto adj = adjacency(m);
    for (int bits = 0; bits < 1024; ++bits)
      for (int junk = 0; junk < 2; ++junk) {
        if (junk && bits % 16 != 5) continue;
        std::unordered_set<int> want;
        for (int k = 0; k < 10; ++k)
          if (bits >> k & 1) want.insert(k - 2);
        const auto w0 = want;
        std::vector<UL> out;
        if (junk) out = {3, 1, 4, 1, 5, 9, 2, 6};
        filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, want, out);
        ctx.count(c_f);
        ctx.trans();
        std::vector<UL> exp;
        for (UL i = 0; i < m.n(); ++i) {
          const int e = static_cast<int>(m.row[i + 1] - m.row[i]) + m.nbnd[i];
          if (e > 0 && w0.count(e)) exp.push_back(i);
        }
        if (!exp.empty()) ctx.count(c_nf);
        if (want != w0) ctx.fail("the requested set was modified");
        if (out != exp) {
          std::vector<int> ws(w0.begin(), w0.end());
          std::sort(ws.begin(), ws.end());
          ctx.fail("filter " + str(ws) + " gives " + str(out) + ", expected " + str(exp));
        }
      }
    ctx.trace();
    ctx.state(hash_mesh(m));
  };
  for (int n = 1; n <= 4; ++n) {
    const Radix r{n_graphs(n), kGraphPatterns};
    add({"fgraphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x 10 patterns x all requested subsets of {-2..7}", r.total(), [=](u64 i, Mesh &m, Config &) {
           const auto d = r.decode(i);
           m = small_graph(n, d[0], d[1]);
         }}, filt, 16);
  }
  {
    const Radix r{511, 4, 2};
    add({"fsub3x3", "all cell subsets of a 3x3 grid x 4 boundary patterns x 2D/3D x all requested subsets of {-2..7}", T ? r.total() : r.total() / 2, [=](u64 i, Mesh &m, Config &) {
           const auto d = r.decode(T ? i : 2 * i + (i % 2));
           m = grid(3, 3, 1, d[0] + 1, 0, 0, d[1], false, d[2]);
         }}, filt, 16);
    add({"fbig", "12 meshes of up to 64 cells x all requested subsets of {-2..7}", kBig, [=](u64 i, Mesh &m, Config &) { m = big_mesh(static_cast<int>(i)); }}, filt, 1);
  }
  // --- compactness of every set, outside neighbours of every set x every agglomerated flag vector
  auto query = [=](u64, const Mesh &m, mc::Ctx &ctx) {
    const size_t n = m.n();
    const auto adj = adjacency(m);
    const Dual_Graph<UL, double, int> g(n, m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, all_cells(n));
    const u64 hm = hash_mesh(m);
    for (u64 s = 0; s < (u64{1} << n); ++s) {
      std::unordered_set<UL> set;
      for (auto x : subset_of(s, n)) set.insert(x);
      int exp = set.size() < 2 ? 0 : 1 << 20;
      std::vector<int> val(n, -1);
      if (set.size() > 1)
        for (auto x : set) {
          int k = 0;
          for (auto y : adj[x]) k += set.count(y) > 0;
          val[x] = k;
          exp = std::min(exp, k);
        }
      else if (set.size() == 1)
        val[*set.begin()] = 0;
      const int got = g.compute_min_fc_compactness_inside_a_cc(set);
      ctx.count(c_c);
      ctx.trans();
      ctx.state(mc::mix(hm, s));
      if (got != exp) ctx.fail("compactness of " + str(subset_of(s, n)) + " is " + std::to_string(got) + ", expected " + std::to_string(exp));
      const auto each = g.compute_fc_compactness_inside_a_cc(set);
      if (each.size() != set.size()) ctx.fail("compactness values of " + str(subset_of(s, n)) + " for " + std::to_string(each.size()) + " cells");
      for (const auto &[x, v] : each)
        if (val.at(x) != v) ctx.fail("compactness of cell " + std::to_string(x) + " in " + str(subset_of(s, n)) + " is " + std::to_string(v) + ", expected " + std::to_string(val[x]));
      for (u64 a = 0; a < (u64{1} << n); ++a) {
        std::vector<bool> agg(n);
        for (size_t k = 0; k < n; ++k) agg[k] = a >> k & 1;
        const auto out = g.get_neighbourhood_of_cc(set, agg);
        std::set<UL> e;
        for (auto x : set)
          for (auto y : adj[x])
            if (!set.count(y) && !agg[y]) e.insert(y);
        ctx.count(c_n);
        ctx.trans();
        const std::set<UL> o(out.begin(), out.end());
        if (o != e) ctx.fail("cells around " + str(subset_of(s, n)) + " (agglomerated " + str(subset_of(a, n)) + ") are " + str(o) + ", expected " + str(e));
      }
    }
    ctx.trace();
  };
  for (int n = 1; n <= (T ? 5 : 4); ++n) {
    add({"qgraphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x all cell sets x all agglomerated subsets", n_graphs(n), [=](u64 i, Mesh &m, Config &) { m = small_graph(n, i, 0); }}, query, 8);
  }
  add({"qsub2x3", "all cell subsets of a 2x3 grid x all sets x all agglomerated subsets", 63, [=](u64 i, Mesh &m, Config &) { m = grid(2, 3, 1, i + 1, 0, 0, 0); }}, query, 1);
  if (T) add({"qsub3x3", "all cell subsets of a 3x3 grid x all sets x all agglomerated subsets", 511, [=](u64 i, Mesh &m, Config &) { m = grid(3, 3, 1, i + 1, 0, 0, 0); }}, query, 1);
  else add({"q3x3", "a 3x3 grid and a 2x2x2 grid x all sets x all agglomerated subsets", 2, [=](u64 i, Mesh &m, Config &) { m = i ? grid(2, 2, 2, ~u64{0}, 0, 0, 0) : grid(3, 3, 1, ~u64{0}, 0, 0, 0); }}, query, 1);
  // --- larger meshes: every single requested value around those present, and whole ranges
  {
    const Radix r{kScaleShapes, kScaleSizes.size(), 3};
    add({"fscale", std::string(kScaleWhat) + " x 3 attribute patterns x every single requested value from 0 to 330, ranges of values and all of them", r.total(), [=](u64 i, Mesh &m, Config &) {
           const auto d = r.decode(i);
           static const int at[3] = {0, 1, 5};
           m = scale_mesh(d[0], kScaleSizes[d[1]], at[d[2]]);
         }},
        [=](u64, const Mesh &m, mc::Ctx &ctx) {
          std::vector<int> e;
          for (UL k = 0; k < m.n(); ++k) e.push_back(static_cast<int>(m.row[k + 1] - m.row[k]) + m.nbnd[k]);
          for (int v = 0; v < 345; ++v) {
            std::unordered_set<int> want;
            if (v <= 330) want.insert(v);
            else for (int x = (v - 331) * 3; x < (v - 331) * 12 + 4; ++x) want.insert(x);
            if (v == 344) for (int x = -5; x < 400; ++x) want.insert(x);
            std::vector<UL> out, exp;
            filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, want, out);
            ctx.count(c_f);
            ctx.trans();
            for (UL k = 0; k < m.n(); ++k)
              if (e[k] > 0 && want.count(e[k])) exp.push_back(k);
            if (!exp.empty()) ctx.count(c_nf);
            if (out != exp) ctx.fail("filter number " + std::to_string(v) + " gives " + str(out) + ", expected " + str(exp));
          }
          ctx.trace();
          ctx.state(hash_mesh(m));
        }, 8);
  }
  // filtering long lists of cells
  {
    static const UL N[6] = {500, 999, 1001, 1500, 4097, 70001};
    const Radix r{6, 5, 8};
    add({"flong", "chains of 500 to 70001 cells x 5 boundary patterns x 8 requested sets", r.total(), [=](u64 i, Mesh &m, Config &) {
           const auto d = r.decode(i);
           const UL n = N[d[0]];
           m = Mesh{};
           m.row = {0};
           for (UL k = 0; k < n; ++k) {
             if (k) m.col.push_back(k - 1);
             if (k + 1 < n) m.col.push_back(k + 1);
             m.row.push_back(m.col.size());
             m.nbnd.push_back(d[1] == 0 ? 0 : d[1] == 1 ? static_cast<int>(k % 4) : d[1] == 2 ? (k > n / 2 ? 2 : 1) : d[1] == 3 ? static_cast<int>(k * 7 % 11 % 5) : (k + 1 == n ? 9 : 3));
           }
           m.w.assign(m.col.size(), 1.);
           m.vol.assign(n, 1.);
           m.prio.assign(1, d[2]);
         }},
        [=](u64, const Mesh &m, mc::Ctx &ctx) {
          static const std::vector<int> W[8] = {{1}, {2}, {3, 4}, {2, 3, 4, 5}, {-1, 5}, {10}, {1, 2, 3, 4, 5, 6, 10}, {0, -3}};
          const auto &q = W[static_cast<int>(m.prio[0])];
          std::unordered_set<int> want(q.begin(), q.end());
          std::vector<UL> out, exp;
          filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, want, out);
          for (UL k = 0; k < m.n(); ++k) {
            const int e = static_cast<int>(m.row[k + 1] - m.row[k]) + m.nbnd[k];
            if (e > 0 && std::count(q.begin(), q.end(), e)) exp.push_back(k);
          }
          ctx.count(c_f);
          if (!exp.empty()) ctx.count(c_nf);
          ctx.trans();
          ctx.trace();
          ctx.state(mc::hash_seq(mc::hash_seq(m.n(), m.nbnd), q));
          if (out != exp) ctx.fail("filter " + str(q) + " gives " + std::to_string(out.size()) + " cells, expected " + std::to_string(exp.size()) + " or others");
        }, 4);
  }
  // compactness and outside neighbours of large sets
  auto sets = [=](u64 kind, UL n, std::unordered_set<UL> &set, std::vector<bool> &agg) {
    agg.assign(n, false);
    for (UL k = 0; k < n; ++k) {
      bool in = false;
      switch (kind) {
        case 0: in = true; break;
        case 1: in = k < n / 2; break;
        case 2: in = k % 2 == 0; break;
        case 3: in = k + 1 < n; break;
        case 4: in = k > 0; break;
        case 5: in = k % 3 != 1; break;
        case 6: in = k + 1 == n; break;
        default: in = k == 0;
      }
      if (in) set.insert(k);
      agg[k] = in || (kind % 2 && k % 5 == 0);
    }
  };
  auto large = [=](u64, const Mesh &m, mc::Ctx &ctx) {
    const UL n = m.n();
    const auto adj = adjacency(m);
    const Dual_Graph<UL, double, int> g(n, m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, {});
    const u64 hm = hash_mesh(m);
    for (u64 kind = 0; kind < 8; ++kind) {
      std::unordered_set<UL> set;
      std::vector<bool> agg;
      sets(kind, n, set, agg);
      int exp = set.size() < 2 ? 0 : 1 << 30;
      std::vector<int> val(n, 0);
      std::set<UL> around;
      for (auto x : set) {
        for (auto y : adj[x]) {
          val[x] += set.count(y) > 0;
          if (!set.count(y) && !agg[y]) around.insert(y);
        }
        if (set.size() > 1) exp = std::min(exp, val[x]);
      }
      ctx.count(c_c);
      ctx.count(c_n);
      ctx.trans(3);
      ctx.state(mc::mix(hm, kind));
      const std::string who = " of cell set " + std::to_string(kind);
      if (g.compute_min_fc_compactness_inside_a_cc(set) != exp) ctx.fail("compactness" + who + " is not " + std::to_string(exp));
      const auto each = g.compute_fc_compactness_inside_a_cc(set);
      if (each.size() != set.size()) ctx.fail("number of compactness values" + who);
      for (const auto &[x, v] : each)
        if (!set.count(x) || val.at(x) != v) ctx.fail("compactness of cell " + std::to_string(x) + who + " is " + std::to_string(v) + ", expected " + std::to_string(val.at(x)));
      const auto out = g.get_neighbourhood_of_cc(set, agg);
      if (std::set<UL>(out.begin(), out.end()) != around) ctx.fail("cells around" + who + " are " + str(out) + ", expected " + str(around));
    }
    ctx.trace();
  };
  {
    const Radix r{kScaleShapes, kScaleSizes.size()};
    add({"qscale", std::string(kScaleWhat) + " x 8 cell sets (all, half, every other, all but the last, all but the first, two thirds, last, first)", r.total(), [=](u64 i, Mesh &m, Config &) {
           const auto d = r.decode(i);
           m = scale_mesh(d[0], kScaleSizes[d[1]], 1);
         }}, large, 8);
    const Radix q{4, 2};
    add({"qgiant", "path, ring, binary tree and grid of 40000 and 140000 cells x 8 cell sets", q.total(), [=](u64 i, Mesh &m, Config &) {
           const auto d = q.decode(i);
           static const int shapes[4] = {0, 2, 6, 9};
           m = scale_mesh(shapes[d[0]], d[1] ? 140000 : 40000, 1);
         }}, large, 1);
  }
  mc::Options opt;
  opt.property = "P24";
  opt.rule = "answers equal the set-builder definitions of the statement";
  opt.states_meaning = "distinct (graph, cell set) pairs";
  opt.transitions_meaning = "queries";
  opt.traces_meaning = "graphs on which every query was compared";
  return mc::drive(argc, argv, opt, sp);
}
