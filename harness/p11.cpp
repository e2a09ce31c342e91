#include "growth.hpp"
#include "scale.hpp"
using namespace vf;

// All surjective maps {0..n-1} -> {0..k-1}: set partitions with every numbering
// (all = true) or in order of first appearance
static std::vector<std::vector<UL>> partitions(int n, bool all) {
  std::vector<std::vector<UL>> out;
  std::vector<UL> cur(n, 0);
  std::function<void(int, UL)> rec = [&](int i, UL mx) {
    if (i == n) {
      if (!all) {
        out.push_back(cur);
        return;
      }
      std::vector<UL> p(mx);
      for (UL k = 0; k < mx; ++k) p[k] = k;
      do {
        auto c = cur;
        for (auto &x : c) x = p[x];
        out.push_back(c);
      } while (std::next_permutation(p.begin(), p.end()));
      return;
    }
    for (UL k = 0; k <= mx; ++k) {
      cur[i] = k;
      rec(i + 1, std::max(mx, k + 1));
    }
  };
  rec(0, 0);
  return out;
}

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_edges = mc::counter("coarse edges compared"), c_multi = mc::counter("coarse edges merging several fine ones");
  auto judge = [=](const Mesh &m, const std::vector<UL> &f2c, int pre, mc::Ctx &ctx) {
    Mesh o;
    if (pre == 1) {  // left over from something larger
      o.row.assign(9, 7);
      o.col.assign(9, 7);
      o.w.assign(9, 7.5);
      o.vol.assign(9, 7.5);
      o.c.assign(9, {7.5, 1., 2., 3.});
      o.prio.assign(9, 1e6);
      o.nbnd.assign(9, 77);
    } else if (pre == 2) {
      o.row.assign(1, 3);
      o.c.assign(1, {});
      o.prio.assign(2, 1e6);
      o.nbnd.assign(1, 5);
      o.vol.assign(1, -1);
    }
    const Mesh before = m;
    const auto f2c_before = f2c;
    build_coarse_graph<UL, double, int>(f2c, m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, o.row, o.col, o.w, o.vol, o.c, o.prio, o.nbnd);
    if (hash_mesh(before) != hash_mesh(m) || f2c_before != f2c) ctx.fail("inputs modified");
    UL nc = 0;
    for (auto x : f2c) nc = std::max(nc, x + 1);
    auto bad = [&](const std::string &s) {
      ctx.fail(s + "; coarse row=" + str(o.row) + " col=" + str(o.col) + " w=" + str(o.w) + " vol=" + str(o.vol) + " prio=" + str(o.prio) + " bnd=" + str(o.nbnd) + " c0=" + (o.c.empty() ? "" : str(o.c[0])));
    };
    if (o.row.size() != nc + 1 || o.row[0] != 0 || o.row.back() != o.col.size() || o.w.size() != o.col.size() || o.vol.size() != nc || o.c.size() != nc || o.prio.size() != nc || o.nbnd.size() != nc)
      bad("wrong sizes");
    std::vector<std::vector<UL>> members(nc);
    for (UL i = 0; i < m.n(); ++i) members[f2c[i]].push_back(i);
    for (UL k = 0; k < nc; ++k) {
      std::map<UL, double> want;
      std::map<UL, int> times;
      double vol = 0, pr = 0;
      int bd = 0;
      bool first = true;
      std::vector<double> c(m.c[0].size(), 0.), mag(c);
      for (auto i : members[k]) {
        vol += m.vol[i];
        for (size_t x = 0; x < c.size(); ++x) {
          c[x] += m.vol[i] * m.c[i][x];
          mag[x] = std::max(mag[x], std::fabs(m.c[i][x]));
        }
        pr = first ? m.prio[i] : std::max(pr, m.prio[i]);
        bd = first ? m.nbnd[i] : std::max(bd, m.nbnd[i]);
        first = false;
        for (UL e = m.row[i]; e < m.row[i + 1]; ++e)
          if (f2c[m.col[e]] != k) {
            want[f2c[m.col[e]]] += m.w[e];
            ++times[f2c[m.col[e]]];
          }
      }
      if (o.row[k] > o.row[k + 1] || o.row[k + 1] > o.col.size()) bad("row pointers not increasing");
      std::map<UL, double> got;
      for (UL e = o.row[k]; e < o.row[k + 1]; ++e)
        if (!got.emplace(o.col[e], o.w[e]).second) bad("neighbour listed twice by coarse cell " + std::to_string(k));
      if (got.size() != want.size()) bad("wrong neighbours of coarse cell " + std::to_string(k));
      for (const auto &[j, x] : want) {
        if (!got.count(j)) bad("coarse cell " + std::to_string(k) + " misses neighbour " + std::to_string(j));
        if (!near(got[j], x)) bad("wrong weight between " + std::to_string(k) + " and " + std::to_string(j) + ", expected " + std::to_string(x));
        ctx.count(c_edges);
        if (times[j] > 1) ctx.count(c_multi);
      }
      if (!near(o.vol[k], vol)) bad("wrong volume of " + std::to_string(k));
      if (o.prio[k] != pr) bad("wrong priority of " + std::to_string(k));
      if (o.nbnd[k] != bd) bad("wrong boundary count of " + std::to_string(k));
      if (o.c[k].size() != c.size()) bad("wrong dimension of centre");
      for (size_t x = 0; x < c.size(); ++x)
        if (std::fabs(o.c[k][x] - c[x] / vol) > 1e-12 * mag[x]) bad("wrong centre of " + std::to_string(k));
    }
    ctx.state(mc::hash_seq(hash_mesh(m), f2c));
    ctx.trans(nc);
    ctx.trace();
  };
  // attribute variants on top of the patterns
  auto mesh_of = [](int n, u64 bits, int variant) {
    static const int pats[5] = {1, 4, 9, 3, 2};
    Mesh m = small_graph(n, bits, pats[variant % 5]);
    if (variant >= 5) {
      // distinct, direction dependent weights and self entries on boundary cells
      Mesh s = m;
      s.row.assign(1, 0);
      s.col.clear();
      s.w.clear();
      for (UL i = 0; i < m.n(); ++i) {
        if (i % 2) {
          s.col.push_back(i);
          s.w.push_back(100. + i);
        }
        for (UL e = m.row[i + 1]; e-- > m.row[i];) {
          s.col.push_back(m.col[e]);
          // some faces of null weight
          s.w.push_back((i + m.col[e]) % 3 == 1 ? 0. : 1. + 0.5 * static_cast<double>(i * m.n() + m.col[e]));
        }
        s.row.push_back(s.col.size());
        s.prio[i] = -4. + ((i * 2 + static_cast<UL>(variant)) % 5);
      }
      m = s;
    }
    return m;
  };
  std::vector<mc::Space> sp;
  const int nmax = T ? 6 : 5;
  for (int n = 1; n <= nmax; ++n) {
    const auto parts = partitions(n, n <= 4 || (T && n == 5));
    const u64 nv = n == 6 ? 1 : 6;
    const Radix r{n_graphs(n), parts.size(), nv, n <= 4 ? u64{3} : u64{1}};
    mc::Space s;
    s.name = "graphs" + std::to_string(n);
    s.what = "all labelled graphs on " + std::to_string(n) + " nodes x all set partitions (" + (n <= 4 || (T && n == 5) ? "every numbering" : "numbered by first appearance") + ") x attribute variants x output pre-fills";
    s.size = r.total();
    auto decode = [=](u64 i, Mesh &m, std::vector<UL> &f, int &pre) {
      const auto d = r.decode(i);
      m = mesh_of(n, d[0], n == 6 ? 5 : d[2] == 5 ? 5 + d[0] % 5 : d[2]);
      f = parts[d[1]];
      pre = n <= 4 ? d[3] : (d[0] + d[1]) % 3;
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      std::vector<UL> f;
      int pre;
      decode(i, m, f, pre);
      judge(m, f, pre, ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      std::vector<UL> f;
      int pre;
      decode(i, m, f, pre);
      return "f2c=" + str(f) + " prefill=" + std::to_string(pre) + " " + describe(m, Config{});
    };
    sp.push_back(s);
  }
  {
    // all 2-colourings of the cells of grids (not necessarily connected pieces)
    const Radix r{3, 512, 3};
    mc::Space s;
    s.name = "grids";
    s.what = "all partitions of the 9 cells of 3 grids (2D graded, 2D sheared with self entries, 3D slab) into at most 2 coarse cells x pre-fills";
    s.size = r.total();
    auto decode = [=](u64 i, Mesh &m, std::vector<UL> &f, int &pre) {
      const auto d = r.decode(i);
      m = d[0] == 0 ? grid(3, 3, 1, ~u64{0}, 4, 3, 0) : d[0] == 1 ? grid(3, 3, 1, ~u64{0}, 3, 6, 3, true) : grid(3, 3, 1, ~u64{0}, 2, 2, 0, false, true);
      f.clear();
      const bool flip = d[1] & 1;
      bool any = false;
      for (int q = 0; q < 9; ++q) {
        f.push_back((d[1] >> q & 1) != flip);
        any = any || f.back();
      }
      if (any && flip)  // number the other way round in half of the cases
        for (auto &x : f) x = 1 - x;
      pre = d[2];
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      std::vector<UL> f;
      int pre;
      decode(i, m, f, pre);
      judge(m, f, pre, ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      std::vector<UL> f;
      int pre;
      decode(i, m, f, pre);
      return "f2c=" + str(f) + " " + describe(m, Config{});
    };
    sp.push_back(s);
  }
  {
    // larger meshes, coarse cells of many shapes
    const Radix r{kScaleShapes, kScaleSizes.size(), kScaleAttrs, 7, 2};
    mc::Space s;
    s.name = "scale";
    s.what = std::string(kScaleWhat) + " x 6 attribute patterns x 7 partitions (single cells, single cells numbered backwards, pairs, remainder by 3, one coarse cell, centre against singles, blocks of 10) x 2D/3D";
    s.size = r.total();
    s.chunk = 8;
    auto decode = [=](u64 i, Mesh &m, std::vector<UL> &f, int &pre) {
      const auto d = r.decode(i);
      const UL n = kScaleSizes[d[1]];
      m = scale_mesh(d[0], n, d[2], d[4] ? 3 : 2);
      if (d[2] == 5 && d[4])
        for (UL q = 0; q < n; ++q) m.nbnd[q] = static_cast<int>(q * 7919 % 100003);
      for (UL q = 0; q < n; ++q) {
        switch (d[3]) {
          case 0: f.push_back(q); break;
          case 1: f.push_back(n - 1 - q); break;
          case 2: f.push_back(q / 2); break;
          case 3: f.push_back(q % std::min<UL>(n, 3)); break;
          case 4: f.push_back(0); break;
          case 5: f.push_back(q < n / 2 ? 0 : q - n / 2 + (n > 1)); break;
          default: f.push_back(q / 10);
        }
      }
      pre = d[1] % 3;
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      std::vector<UL> f;
      int pre;
      decode(i, m, f, pre);
      judge(m, f, pre, ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      std::vector<UL> f;
      int pre;
      decode(i, m, f, pre);
      return "f2c=" + str(f) + " prefill=" + std::to_string(pre) + " " + describe(m, Config{});
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P11";
  opt.rule = "the coarse graph equals the quotient computed from its definition";
  opt.states_meaning = "distinct (fine graph, partition)";
  opt.transitions_meaning = "coarse cells built and compared";
  opt.traces_meaning = "implementation runs whose complete result was compared";
  return mc::drive(argc, argv, opt, sp);
}
