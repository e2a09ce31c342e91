// P25: the choice made by the correction, replayed on the uncorrected result.
// The order in which the fine cells of one singular cell are moved is left
// open, hence the model gives a set of outcomes; with a threshold of 1 it is a
// single one.
#include "corrections.hpp"
#include "shapes.hpp"
using namespace vf;

namespace {
struct Part {
  std::vector<std::vector<UL>> cc;  // an empty one has been removed
  std::vector<long> of;
  bool operator<(const Part &o) const { return of < o.of; }
};

struct Model {
  const std::vector<std::vector<UL>> &adj;
  size_t na, eff;

  int links(const Part &p, UL x, long k) const {
    int c = 0;
    for (auto y : adj[x]) c += p.of[y] == k;
    return c;
  }
  // smallest number of neighbours inside the set
  int compactness(const std::vector<UL> &s) const {
    if (s.size() < 2) return 0;
    int best = 1 << 20;
    for (auto x : s) {
      int c = 0;
      for (auto y : adj[x]) c += std::find(s.begin(), s.end(), y) != s.end();
      best = std::min(best, c);
    }
    return best;
  }
  std::set<long> around(const Part &p, UL x, long self) const {
    std::set<long> s;
    for (auto y : adj[x])
      if (p.of[y] != self && p.of[y] >= static_cast<long>(na)) s.insert(p.of[y]);
    return s;
  }
  bool denser(const Part &p, const std::vector<UL> &xs, long k) const {
    auto s = p.cc[k];
    s.insert(s.end(), xs.begin(), xs.end());
    return compactness(s) > compactness(p.cc[k]);
  }
  long choose(const Part &p, UL x, const std::set<long> &cand) const {
    long best = -1;
    std::tuple<int, int, long, long> key;
    for (auto k : cand) {
      const std::tuple<int, int, long, long> q{-denser(p, {x}, k), -links(p, x, k), static_cast<long>(p.cc[k].size()), k};
      if (best < 0 || q < key) {
        best = k;
        key = q;
      }
    }
    return best;
  }
  static void move(Part &p, UL x, long k) {
    auto &o = p.cc[p.of[x]];
    o.erase(std::find(o.begin(), o.end(), x));
    p.of[x] = k;
    p.cc[k].push_back(x);
  }
  // all the outcomes of moving the cells of coarse cell k one by one
  void split(const Part &p, long k, std::vector<UL> left, const std::vector<std::set<long>> &seen, bool moved, const std::vector<UL> &waiting, std::set<Part> &out) const {
    if (left.empty()) {
      if (!moved || waiting.empty()) {
        out.insert(p);
        return;
      }
      auto again = seen;
      for (auto x : waiting) again[x] = around(p, x, k);
      split(p, k, waiting, again, false, {}, out);
      return;
    }
    for (size_t i = 0; i < left.size(); ++i) {
      const UL x = left[i];
      auto rest = left;
      rest.erase(rest.begin() + static_cast<long>(i));
      std::set<long> picks;
      for (const auto &cand : {seen[x], around(p, x, k)}) {
        const long b = choose(p, x, cand);
        picks.insert(b);
      }
      for (auto b : picks) {
        if (b < 0) {
          auto w = waiting;
          w.push_back(x);
          split(p, k, rest, seen, moved, w, out);
        } else {
          Part q = p;
          move(q, x, b);
          split(q, k, rest, seen, true, waiting, out);
        }
      }
    }
  }
  std::set<Part> run(const Part &start, size_t &whole, size_t &pieces) const {
    std::set<Part> now{start};
    for (long k = static_cast<long>(na); k < static_cast<long>(start.cc.size()); ++k) {
      if (start.cc[k].size() > eff) continue;
      std::set<Part> next;
      for (const auto &p : now) {
        const auto cells = p.cc[k];
        if (cells.size() > eff) {
          next.insert(p);
          continue;
        }
        if (cells.size() > 1) {
          std::set<long> nb;
          for (auto x : cells)
            for (auto b : around(p, x, k)) nb.insert(b);
          long best = -1;
          for (auto b : nb)
            if (denser(p, cells, b) && (best < 0 || p.cc[b].size() < p.cc[best].size())) best = b;
          if (best >= 0) {
            Part q = p;
            for (auto x : cells) move(q, x, best);
            next.insert(q);
            ++whole;
            continue;
          }
        }
        ++pieces;
        std::vector<std::set<long>> seen(adj.size());
        for (auto x : cells) seen[x] = around(p, x, k);
        split(p, k, cells, seen, false, {}, next);
      }
      now.swap(next);
    }
    return now;
  }
};

void strip(Mesh &m) {
  std::vector<UL> row{0}, col;
  std::vector<double> w;
  for (UL i = 0; i < m.n(); ++i) {
    for (UL k = m.row[i]; k < m.row[i + 1]; ++k)
      if (m.col[k] != i) {
        col.push_back(m.col[k]);
        w.push_back(m.w[k]);
      }
    row.push_back(col.size());
  }
  m.row = row;
  m.col = col;
  m.w = w;
}
}  // namespace

int main(int argc, char **argv) {
  const int c_one = mc::counter("corrections with a single possible outcome"), c_more = mc::counter("corrections with several possible outcomes"), c_none = mc::counter("calls without singular cells"),
            c_wh = mc::counter("cells joined as a whole"), c_pc = mc::counter("cells moved one by one"), c_dist = mc::counter("corrections where the choice was not forced");
  UOpt o;
  o.thorough = mc::is_thorough();
  o.corr = {1, 2, 4};
  auto judge = [=](const Mesh &m, const Result &a, const Result &b, size_t na, size_t eff, mc::Ctx &ctx) {
    const auto ga = groups(m, a);
    const auto adj = adjacency(m);
    const Model mod{adj, na, eff};
    Part p;
    p.cc = ga;
    p.of.assign(a.f2c.begin(), a.f2c.end());
    bool any = false, open = false;
    for (size_t k = mod.na; k < ga.size(); ++k)
      if (ga[k].size() <= eff) {
        any = true;
        std::set<long> nb;
        for (auto x : ga[k])
          for (auto y : mod.around(p, x, static_cast<long>(k))) nb.insert(y);
        if (nb.size() > 1) open = true;
      }
    cover(ctx, m, b, groups(m, b));
    ctx.trace(2);
    if (!any) {
      ctx.count(c_none);
      if (a.f2c != b.f2c) ctx.fail("changed without singular cells");
      return;
    }
    size_t wh = 0, pc = 0;
    const auto outs = mod.run(p, wh, pc);
    ctx.count(c_wh, wh);
    ctx.count(c_pc, pc);
    if (open) ctx.count(c_dist);
    ctx.count(outs.size() == 1 ? c_one : c_more);
    std::string exp;
    for (const auto &q : outs) {
      // consecutive numbering
      std::vector<UL> id(q.cc.size()), r;
      UL c = 0;
      for (size_t k = 0; k < q.cc.size(); ++k) {
        id[k] = c;
        c += !q.cc[k].empty();
      }
      for (auto k : q.of) r.push_back(id[k]);
      if (r == b.f2c) return;
      exp += (exp.empty() ? "" : " or ") + str(r);
    }
    ctx.fail("uncorrected " + str(a.f2c) + ", corrected " + str(b.f2c) + ", expected " + exp);
  };
  auto f = [=](const Mesh &m0, const Config &g0, mc::Ctx &ctx) {
    Mesh m = m0;
    strip(m);
    Config g = g0;
    if (!g.corr) return;
    g.corr = false;
    const auto a = call(m, g);
    g.corr = true;
    const auto b = call(m, g);
    judge(m, a, b, n_aniso(g, a), static_cast<size_t>(g.thresh >= g.min ? g.min - 1 : g.thresh), ctx);
  };
  std::vector<mc::Space> sp;
  // Many small coarse cells have too many possible orders
  for (const auto &u : universe(o))
    if (u.name != "large" && u.name.find("huge") == std::string::npos) sp.push_back(as_space(u, f));
  {
    const std::vector<Card> cs{{4, 4, 4}, {5, 5, 5}, {6, 4, 6}, {3, 3, 4}, {5, 4, 6}};
    const u64 nm = o.thorough ? 4095 : 511;
    const bool T = o.thorough;
    const Radix r{nm, cs.size(), 4, 2, 4};
    sp.push_back(as_space({"thresholds", "all subsets of a 3x3 (3x4 thorough) grid x 5 cardinality triples x 4 seed orderings x 2 neighbourhoods x thresholds 1..4", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = T ? grid(3, 4, 1, d[0] + 1, 0, 0, 0) : grid(3, 3, 1, d[0] + 1, 0, 0, 0);
                             set_card(g, cs[d[1]]);
                             g.seed = kSeeds[d[2]];
                             g.neigh = d[3];
                             set_corr(g, d[4] + 1);
                           }}, f));
  }
  sp.push_back(partition_space(5, labelled_graphs(5), 2, 3, judge));
  sp.push_back(partition_space(6, kGraphs6, 1, 3, judge));
  if (o.thorough) sp.push_back(partition_space(7, kGraphs7, 0, 3, judge));
  // one correction of given coarse cells
  auto given = [=](const Mesh &m, const std::vector<std::vector<UL>> &cells, size_t na, int t, mc::Ctx &ctx) {
    // several multiple ones moved one by one have too many possible orders
    int several = 0;
    for (size_t k = na; k < cells.size(); ++k) several += cells[k].size() > 1 && static_cast<int>(cells[k].size()) <= t;
    if (several > 3) return;
    const auto adj = adjacency(m);
    Result a, b;
    a.f2c.resize(m.n());
    for (size_t k = 0; k < cells.size(); ++k)
      for (auto x : cells[k]) a.f2c[x] = k;
    if (corrected(m, adj, cells, na, t, b, ctx)) judge(m, a, b, na, static_cast<size_t>(t), ctx);
  };
  {
    // cells of a ring cut in arcs
    const int N = o.thorough ? 12 : 11;
    const Radix r{static_cast<u64>(N - 5), u64{1} << (N - 1), 4, 4};
    auto one = [=](u64 i, std::vector<std::vector<UL>> &cells) {
      const auto d = r.decode(i);
      const UL n = d[0] + 6;
      const u64 cuts = d[1];
      Mesh m;
      if (cuts >> (n - 1)) return m;
      std::vector<std::vector<UL>> adj(n);
      auto link = [&](UL x, UL y) {
        if (x == y || std::count(adj[x].begin(), adj[x].end(), y)) return;
        adj[x].push_back(y);
        adj[y].push_back(x);
      };
      // a ring; with chords; with a cell linked to all; a ladder closed at its ends
      for (UL k = 0; k < n; ++k) {
        link(k, (k + 1) % n);
        if (d[2] == 1) link(k, (k + 2) % n);
        if (d[2] == 2) link(0, k);
        if (d[2] == 3) link(k, n - 1 - k);
      }
      m.dim = 2;
      set_graph(m, adj, [](UL, UL) { return 1.; });
      m.vol.assign(n, 1.);
      m.nbnd.assign(n, 0);
      m.prio.assign(n, 1.);
      for (UL k = 0; k < n; ++k) m.c.push_back({static_cast<double>(k), 0.});
      cells.assign(1, {0});
      for (UL k = 1; k < n; ++k) {
        if (cuts >> (k - 1) & 1) cells.emplace_back();
        cells.back().push_back(k);
      }
      // numbered along the ring, against it, largest first or last
      if (d[3] == 1) std::reverse(cells.begin(), cells.end());
      if (d[3] > 1) std::stable_sort(cells.begin(), cells.end(), [&](const auto &x, const auto &y) { return d[3] == 2 ? x.size() > y.size() : x.size() < y.size(); });
      return m;
    };
    mc::Space s;
    s.name = "arcs";
    s.what = "correction of rings of 6 to " + std::to_string(N) + " cells cut in arcs in every way, 4 sets of further links x 4 numberings of the arcs x thresholds 1..4 x 0 or 1 anisotropic (at most three multiple singular cells)";
    s.size = r.total();
    s.chunk = 256;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      std::vector<std::vector<UL>> cells;
      const Mesh m = one(i, cells);
      if (cells.empty()) return;
      for (int t = 1; t <= 4; ++t)
        for (size_t na = 0; na < 2; ++na) given(m, cells, na, t, ctx);
    };
    s.describe = [=](u64 i) {
      std::vector<std::vector<UL>> cells;
      const Mesh m = one(i, cells);
      std::string c;
      for (const auto &x : cells) c += str(x) + " ";
      Config g;
      return "coarse cells before the correction " + c + "\n" + describe(m, g);
    };
    sp.push_back(s);
  }
  {
    // A singular cell of one or two cells between two coarse cells: a path, a
    // ring or a clique each, linked to any of their cells
    const int P = 6;
    struct Side {
      int kind, size;
      u64 x, y;
    };
    auto sides = std::make_shared<std::vector<Side>>(), pairs = std::make_shared<std::vector<Side>>();
    for (int q = 2; q <= P; ++q)
      for (int k = 0; k < (q > 3 ? 3 : q > 2 ? 2 : 1); ++k)
        for (u64 x = 0; x < u64{1} << q; ++x) {
          const int kind = k == 1 && q == 3 ? 2 : k;
          sides->push_back({kind, q, x, 0});
          if (q <= 3)
            for (u64 y = 0; y < u64{1} << q; ++y) pairs->push_back({kind, q, x, y});
        }
    for (int two = 0; two < 2; ++two) {
      const auto v = two ? pairs : sides;
      const Radix r{v->size(), v->size(), 2, 3};
      auto one = [=](u64 i, std::vector<std::vector<UL>> &cells) {
        const auto d = r.decode(i);
        const Side A = (*v)[d[0]], B = (*v)[d[1]];
        const UL na = A.size, nb = B.size, n = na + nb + 1 + two;
        std::vector<std::vector<UL>> adj(n);
        auto link = [&](UL x, UL y) {
          adj[x].push_back(y);
          adj[y].push_back(x);
        };
        auto inner = [&](const Side &s, UL at) {
          for (UL x = 0; x < static_cast<UL>(s.size); ++x)
            for (UL y = x + 1; y < static_cast<UL>(s.size); ++y)
              if (s.kind == 2 || y == x + 1 || (s.kind == 1 && x == 0 && y + 1 == static_cast<UL>(s.size))) link(at + x, at + y);
          for (UL x = 0; x < static_cast<UL>(s.size); ++x) {
            if (s.x >> x & 1) link(na + nb, at + x);
            if (two && s.y >> x & 1) link(na + nb + 1, at + x);
          }
        };
        inner(A, 0);
        inner(B, na);
        if (two) link(na + nb, na + nb + 1);
        if (d[2]) link(0, na);
        Mesh m;
        m.dim = 2;
        set_graph(m, adj, [](UL, UL) { return 1.; });
        m.vol.assign(n, 1.);
        m.nbnd.assign(n, 0);
        m.prio.assign(n, 1.);
        std::vector<UL> a, b, c;
        for (UL k = 0; k < n; ++k) {
          m.c.push_back({static_cast<double>(k), 0.});
          (k < na ? a : k < na + nb ? b : c).push_back(k);
        }
        cells = {a, b};
        cells.insert(cells.begin() + d[3], c);
        return m;
      };
      mc::Space s;
      s.name = two ? "between2" : "between1";
      s.what = std::string(two ? "two cells" : "one cell") + " between two coarse cells (paths, rings or cliques of 2 to " + std::to_string(two ? 3 : P) + " cells), linked to any of their cells x the two linked or not x 3 positions of the singular cell, thresholds up to 3";
      s.size = r.total();
      s.chunk = 1024;
      s.run = [=](u64 i, mc::Ctx &ctx) {
        std::vector<std::vector<UL>> cells;
        const Mesh m = one(i, cells);
        for (int t = 1 + two; t <= (two ? 3 : 2); ++t) given(m, cells, 0, t, ctx);
      };
      s.describe = [=](u64 i) {
        std::vector<std::vector<UL>> cells;
        const Mesh m = one(i, cells);
        std::string c;
        for (const auto &x : cells) c += str(x) + " ";
        Config g;
        return "coarse cells before the correction " + c + "\n" + describe(m, g);
      };
      sp.push_back(s);
    }
  }
  {
    std::vector<UL> sizes;
    for (auto n : kScaleSizes)
      if (n <= (o.thorough ? 66 : 33)) sizes.push_back(n);
    const Radix r{kScaleShapes, sizes.size(), kSizes.size(), 2};
    mc::Space s;
    s.name = "gathered";
    s.what = "12 shapes x sizes up to " + std::to_string(sizes.back()) + " gathered in coarse cells of 9 patterns of sizes, lowest or highest number first, thresholds 1..3, up to 2 anisotropic (at most three multiple singular cells)";
    s.size = r.total();
    s.chunk = 4;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const Mesh m = scale_mesh(d[0], sizes[d[1]], 0);
      const auto cells = gathered(adjacency(m), d[2], d[3]);
      for (int t = 1; t <= 3; ++t)
        for (size_t na = 0; na <= 2 && na < cells.size(); ++na) given(m, cells, na, t, ctx);
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      const Mesh m = scale_mesh(d[0], sizes[d[1]], 0);
      std::string c;
      for (const auto &x : gathered(adjacency(m), d[2], d[3])) c += str(x) + " ";
      Config g;
      return "coarse cells before the correction " + c + "\n" + describe(m, g);
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P25";
  opt.rule = "the corrected result equals (one of) the outcome(s) of the reference correction of the uncorrected result";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells) of the corrected runs";
  opt.transitions_meaning = "coarse cells of the corrected runs";
  opt.traces_meaning = "implementation runs compared (two per pair)";
  return mc::drive(argc, argv, opt, sp);
}
