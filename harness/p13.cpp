#include "universe.hpp"
using namespace vf;

static Mesh reorder(const Mesh &m, int how) {
  Mesh o = m;
  for (UL i = 0; i < m.n(); ++i) {
    std::vector<std::pair<UL, double>> e;
    for (UL k = m.row[i]; k < m.row[i + 1]; ++k) e.emplace_back(m.col[k], m.w[k]);
    if (e.size() > 1) {
      if (how == 0) std::reverse(e.begin(), e.end());
      if (how == 1) std::rotate(e.begin(), e.begin() + 1, e.end());
      if (how == 2) std::swap(e[0], e[1]);
      if (how == 3 && i % 2) std::reverse(e.begin(), e.end());
      if (how == 4) std::sort(e.begin(), e.end(), [](const auto &a, const auto &b) { return a.second != b.second ? a.second > b.second : a.first > b.first; });
    }
    for (UL k = 0; k < e.size(); ++k) {
      o.col[m.row[i] + k] = e[k].first;
      o.w[m.row[i] + k] = e[k].second;
    }
  }
  return o;
}

// cell i becomes p[i]
static Mesh renumber(const Mesh &m, const std::vector<UL> &p) {
  Mesh o = m;
  std::vector<UL> inv(p.size());
  for (UL i = 0; i < p.size(); ++i) inv[p[i]] = i;
  o.row.assign(1, 0);
  o.col.clear();
  o.w.clear();
  for (UL q = 0; q < p.size(); ++q) {
    const UL i = inv[q];
    for (UL k = m.row[i]; k < m.row[i + 1]; ++k) {
      o.col.push_back(p[m.col[k]]);
      o.w.push_back(m.w[k]);
    }
    o.row.push_back(o.col.size());
    o.vol[q] = m.vol[i];
    o.c[q] = m.c[i];
    o.prio[q] = m.prio[i];
    o.nbnd[q] = m.nbnd[i];
  }
  return o;
}

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const std::vector<std::string> names{"neighbours reversed", "neighbours rotated", "first two neighbours swapped", "neighbours reversed in odd rows", "neighbours by weight", "compliant cells reversed", "compliant cells twice", "priorities 4p-7", "priorities p^3+p", "priorities replaced by their ranks", "translated", "scaled by 2^30", "scaled by 2^-30", "boundary counts above the dimension raised", "singular threshold at least the minimum", "non-positive line limit", "inverse threshold", "unknown neighbourhood is pure front, unknown coupling is maximum weight", "provided lines reversed", "mirrored", "axes swapped"};
  const int kT = static_cast<int>(names.size());
  std::vector<int> cn;
  for (const auto &s : names) cn.push_back(mc::counter("pairs: " + s));
  const int c_ren = mc::counter("pairs: renumbered"), c_skip = mc::counter("transformation not applicable");
  auto f = [=](const Mesh &m, const Config &g, int t, mc::Ctx &ctx) {
    Mesh a = m, b = m;
    Config p = g, q = g;
    bool app = true;
    const bool bary = g.ar == 7 || g.ar == 8;
    auto scale = [&](double s) {
      for (auto &c : b.c)
        for (auto &x : c) x *= s;
      for (auto &x : b.w) x *= m.dim == 2 ? s : s * s;
      for (auto &x : b.vol) x *= m.dim == 2 ? s * s : s * s * s;
    };
    switch (t) {
      case 0: case 1: case 2: case 3: case 4: b = reorder(m, t); break;
      case 5:
        app = g.aniso && g.compliant.size() > 1;
        std::reverse(q.compliant.begin(), q.compliant.end());
        break;
      case 6:
        app = g.aniso && !g.compliant.empty();
        q.compliant.insert(q.compliant.end(), g.compliant.begin(), g.compliant.end());
        break;
      case 7:
        for (auto &x : b.prio) x = 4 * x - 7;
        break;
      case 8:
        for (auto &x : b.prio) x = x * x * x + x;
        break;
      case 9: {
        std::set<double> v(m.prio.begin(), m.prio.end());
        for (auto &x : b.prio) x = static_cast<double>(std::distance(v.begin(), v.find(x))) - 2.;
        break;
      }
      case 10:
        app = !bary && m.exact;  // the barycentre is rounded
        for (auto &c : b.c)
          for (size_t x = 0; x < c.size(); ++x) c[x] += x == 0 ? 16. : -8.5;
        break;
      case 11: scale(1073741824.); break;
      case 12: scale(1. / 1073741824.); break;
      case 13:
        app = false;
        for (auto &x : b.nbnd)
          if (x >= m.dim) {
            static const int more[7] = {1, 2, 3, 20, 250, 65533, 2000000000};
            x += more[(hash_mesh(m) + static_cast<u64>(x)) % 7];
            app = true;
          }
        break;
      case 14:
        app = g.corr;
        p.thresh = g.min - 1;
        static const int above[7] = {0, 1, 2, 20, 40, 1000000, 2000000000};
        q.thresh = g.min + above[hash_mesh(m) % 7];
        break;
      case 15:
        app = g.aniso && g.build;
        p.maxc.reset();
        {
          static const int below[6] = {0, 1, 2, 70, 40000, 2000000000};
          q.maxc = -below[hash_mesh(m) % 6];
        }
        break;
      case 16:
        app = g.aniso && g.build && g.athr > 0;
        q.athr = 1. / g.athr;
        break;
      case 18: {
        app = g.aniso && !g.build && g.lidx.size() > 1;
        if (!app) break;
        for (size_t k = 0; k + 1 < g.lidx.size(); ++k) std::reverse(q.lines.begin() + static_cast<long>(g.lidx[k]), q.lines.begin() + static_cast<long>(g.lidx[k + 1]));
        break;
      }
      case 19:
        for (auto &c : b.c) c[m.n() % 2] = -c[m.n() % 2];
        break;
      case 20:
        app = m.dim == 2;  // sums of three terms are rounded
        for (auto &c : b.c) std::swap(c[0], c[1]);
        break;
      default:
        p.neigh = 1;
        q.neigh = 5;
        p.coupling = 0;
        q.coupling = 7;
    }
    if (!app) {
      ctx.count(c_skip);
      return;
    }
    ctx.count(cn[t]);
    const auto r = call(a, p), s = call(b, q);
    const auto gr = groups(a, r);
    cover(ctx, a, r, gr);
    ctx.trace(2);
    if (t <= 4 && g.aniso) {
      // The isotropic seeds around the lines are queued in listing order:
      // only the lines and their coarse cells are independent of it
      const UL na = n_aniso(g, r);
      bool same = r.lidx == s.lidx && r.lines == s.lines;
      for (UL i = 0; i < m.n() && same; ++i) same = r.f2c[i] < na || s.f2c.at(i) < na ? r.f2c[i] == s.f2c.at(i) : true;
      if (!same) ctx.fail(names[t] + " changes lines: " + show(r) + " becomes " + show(s));
      return;
    }
    if (r.f2c != s.f2c || r.lidx != s.lidx || r.lines != s.lines) ctx.fail(names[t] + " changes the result: " + show(r) + " becomes " + show(s));
  };
  std::vector<mc::Space> sp;
  auto add = [&](const Gen &u, u64 stride = 1) {
    mc::Space s;
    s.name = u.name;
    s.what = u.what + " x " + std::to_string(kT) + " transformations";
    s.size = u.size * static_cast<u64>(kT);
    (void)stride;
    auto make = u.make;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      Config g;
      make(i / kT, m, g);
      f(m, g, static_cast<int>(i % kT), ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      Config g;
      make(i / kT, m, g);
      return names[i % kT] + ": " + describe(m, g);
    };
    sp.push_back(s);
  };
  const auto cs = cards_small();
  for (int n = 2; n <= 4; ++n) {
    const Radix r{n_graphs(n), kGraphPatterns, 4, 2, 2};
    add({"graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x 10 attribute patterns x 4 seed orderings x 2 neighbourhoods x correction", r.total(), [=](u64 i, Mesh &m, Config &g) {
           const auto d = r.decode(i);
           m = small_graph(n, d[0], d[1]);
           g.seed = kSeeds[d[2]];
           g.neigh = d[3];
           set_card(g, cs[(d[1] + d[2]) % 2 ? 1 : 0]);
           set_corr(g, d[4] * (1 + d[1] % 2));
           g.ar = (d[1] * 3 + d[2]) % kNAR;
           g.fc_iter = 1 + d[0] % 2;
         }});
  }
  {
    const Radix r{n_graphs(5), 2, 4};
    add({"graphs5", "all labelled graphs on 5 nodes x 2 attribute patterns x 4 seed orderings", r.total(), [=](u64 i, Mesh &m, Config &g) {
           const auto d = r.decode(i);
           m = small_graph(5, d[0], d[1] ? 4 : 9);
           g.seed = kSeeds[d[2]];
           g.neigh = d[0] % 2;
           set_card(g, {3, 2, 4});
           set_corr(g, d[2] % 3);
           g.ar = d[0] % kNAR;
         }});
    const Radix q{511, 4, T ? u64{kNAR} : u64{3}};
    add({"sub3x3", "all cell subsets of a 3x3 grid x 4 geometries x aspect ratios", q.total(), [=](u64 i, Mesh &m, Config &g) {
           const auto d = q.decode(i);
           m = grid(3, 3, 1, static_cast<u64>(d[0] + 1), d[1] == 2 ? 4 : d[1], d[0] % 7, d[1] % 2 ? 3 : 0, d[1] == 3);
           g.ar = (d[2] * 3 + d[0]) % kNAR;
           g.seed = kSeeds[(d[0] + d[1]) % 4];
           g.neigh = d[0] / 4 % 2;
           set_card(g, d[2] % 2 ? Card{4, 3, 5} : Card{3, 2, 4});
           set_corr(g, d[2] % 3);
         }});
    const Radix b{kBig, 4, kNAR, 2};
    add({"big", "12 structured/perforated meshes x 4 seed orderings x 10 aspect ratios x 2 neighbourhoods", b.total(), [=](u64 i, Mesh &m, Config &g) {
           const auto d = b.decode(i);
           m = big_mesh(d[0]);
           g.seed = kSeeds[d[1]];
           g.ar = d[2];
           g.neigh = d[3];
           set_card(g, d[2] % 2 ? Card{4, 2, 5} : Card{6, 4, 8});
           set_corr(g, d[2] % 3);
         }});
    static const double thr[4] = {4., 0.25, 2., 0.5};
    const Radix an{511, 2, 4, 2};
    add({"an3x3", "all cell subsets of a stretched 3x3 grid x direction flag x 4 thresholds x coupling", an.total(), [=](u64 i, Mesh &m, Config &g) {
           const auto d = an.decode(i);
           m = grid(3, 3, 1, static_cast<u64>(d[0] + 1), d[3] ? 4 : 1, d[0] % 7, 0, d[1] == 1);
           g.aniso = true;
           g.odd = d[0] % 2;
           g.maxc = max_option(d[2] == 2 ? 3 : 0);
           g.athr = thr[d[2]];
           g.dir = d[1];
           g.coupling = d[3];
           g.compliant = all_cells(m.n());
           g.seed = kSeeds[d[0] % 4];
           set_corr(g, d[2] % 3);
         }});
    const Radix ag{n_graphs(4), 3, 15, 2, 2};
    add({"angraph4", "all labelled graphs on 4 nodes x 3 weight patterns x all compliant subsets x direction flag x coupling", ag.total(), [=](u64 i, Mesh &m, Config &g) {
           const auto d = ag.decode(i);
           static const int pat[3] = {2, 7, 1};
           m = small_graph(4, d[0], pat[d[1]]);
           g.aniso = true;
           g.compliant = subset_of(static_cast<u64>(d[2] + 1), 4);
           g.odd = d[0] % 2;
           g.dir = d[3];
           g.coupling = d[4];
           g.athr = 2.;
           set_card(g, {2, 2, 3});
           g.seed = kSeeds[d[2] % 4];
           set_corr(g, d[2] % 2);
         }});
  }
  {
    struct Base { int nx, ny; size_t nl, len; };
    for (const auto &bs : std::vector<Base>{{1, 5, 2, 5}, {2, 3, 2, 4}, {3, 3, 1, 5}}) {
      auto sets = std::make_shared<std::vector<std::vector<std::vector<UL>>>>(line_sets(adjacency(grid(bs.nx, bs.ny, 1, ~u64{0}, 0, 0, 0)), bs.nl, bs.len, 200000));
      const Radix r{sets->size(), 2, 3};
      add({"lines" + std::to_string(bs.nx) + "x" + std::to_string(bs.ny), "all ordered sets of at most " + std::to_string(bs.nl) + " disjoint oriented paths of at most " + std::to_string(bs.len) + " cells as provided lines x odd flag x limit {none,2,3}", r.total(), [=](u64 i, Mesh &m, Config &g) {
             const auto d = r.decode(i);
             m = grid(bs.nx, bs.ny, 1, ~u64{0}, 0, d[0] % 7, d[0] % 4);
             g.aniso = true;
             g.build = false;
             set_lines(g, (*sets)[d[0]]);
             g.odd = d[1];
             g.maxc = max_option(d[2] ? d[2] + 1 : 0);
             g.seed = kSeeds[d[0] / 7 % 4];
             set_corr(g, d[0] % 2);
             set_card(g, {3, 2, 4});
           }});
    }
  }
  // Renumbering: isotropic, distinct priorities
  auto perms = [](int n) {
    std::vector<std::vector<UL>> out;
    auto p = all_cells(static_cast<size_t>(n));
    do out.push_back(p);
    while (std::next_permutation(p.begin(), p.end()));
    return out;
  };
  auto ren = [=](const Mesh &m, const Config &g, const std::vector<UL> &p, mc::Ctx &ctx) {
    const auto r = call(m, g), s = call(renumber(m, p), g);
    cover(ctx, m, r, groups(m, r));
    ctx.trace(2);
    ctx.count(c_ren);
    for (UL i = 0; i < m.n(); ++i)
      if (s.f2c.at(p[i]) != r.f2c[i]) ctx.fail("renumbering " + str(p) + " changes the result: " + show(r) + " becomes " + show(s));
  };
  auto distinct = [](Mesh &m, int k) {
    for (UL i = 0; i < m.n(); ++i) m.prio[i] = static_cast<double>((i * (k % 2 ? 3 : 1) + static_cast<UL>(k)) % (m.n() % 3 == 0 && k % 2 ? m.n() + 1 : m.n())) - 2.;
    std::set<double> s(m.prio.begin(), m.prio.end());
    if (s.size() != m.n())
      for (UL i = 0; i < m.n(); ++i) m.prio[i] = -static_cast<double>(i);
  };
  for (int n = 3; n <= (T ? 6 : 5); ++n) {
    const auto ps = perms(n);
    const Radix r{n_graphs(n), ps.size(), n == 5 ? u64{2} : n == 6 ? u64{1} : u64{10}, n <= 4 ? u64{4} : u64{1}};
    mc::Space s;
    s.name = "renumber" + std::to_string(n);
    s.what = "all labelled graphs on " + std::to_string(n) + " nodes x all renumberings x attribute patterns x seed orderings, distinct priorities";
    s.size = r.total();
    auto mk = [=](u64 i, Mesh &m, Config &g) {
      const auto d = r.decode(i);
      m = small_graph(n, d[0], n >= 5 ? (d[2] ? 9 : 4) : d[2]);
      distinct(m, d[2]);
      g.seed = kSeeds[n <= 4 ? d[3] : (d[0] + d[1]) % 4];
      g.neigh = (d[0] + d[2]) % 2;
      g.ar = (d[0] + d[1] + d[2]) % 7;
      set_card(g, (d[1] + d[2]) % 2 ? Card{3, 2, 4} : Card{2, 2, 3});
      set_corr(g, (d[0] + d[2]) % 2);
      return ps[d[1]];
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      Config g;
      const auto p = mk(i, m, g);
      ren(m, g, p, ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      Config g;
      const auto p = mk(i, m, g);
      return "renumber by " + str(p) + ": " + describe(m, g);
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P13";
  opt.rule = "the call on the transformed input gives the same result (renamed for renumberings)";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs compared in pairs";
  return mc::drive(argc, argv, opt, sp);
}
