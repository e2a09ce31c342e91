// P37: separate pieces of a mesh are agglomerated independently.
#include "scale.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_one = mc::counter("connected meshes (nothing to compare)"), c_p = mc::counter("pieces compared");
  const int c_l = mc::counter("pieces with lines"), c_o = mc::counter("pieces started after the first seed of a one-point initialisation");
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const auto adj = adjacency(m);
    std::vector<int> comp(m.n(), -1);
    int nc = 0;
    for (UL s = 0; s < m.n(); ++s)
      if (comp[s] < 0) {
        std::vector<UL> st{s};
        comp[s] = nc;
        while (!st.empty()) {
          const auto x = st.back();
          st.pop_back();
          for (auto y : adj[x])
            if (comp[y] < 0) {
              comp[y] = nc;
              st.push_back(y);
            }
        }
        ++nc;
      }
    if (nc == 1) {
      ctx.count(c_one);
      return;
    }
    const auto r = call(m, g);
    cover(ctx, m, r, groups(m, r));
    ctx.trace();
    // With one-point initialisation the first seed is alone; other pieces are
    // started by queueing their top level, as in a full initialisation. Next to
    // lines that single seed may fall in any piece: only lines are compared
    const UL lines = n_aniso(g, r);
    int first = -1;
    for (UL i = 0; i < m.n(); ++i)
      if (r.f2c[i] == 0) first = comp[i];
    for (int k = 0; k < nc; ++k) {
      std::vector<UL> cells, loc(m.n(), 0);
      for (UL i = 0; i < m.n(); ++i)
        if (comp[i] == k) {
          loc[i] = cells.size();
          cells.push_back(i);
        }
      Mesh p;
      p.dim = m.dim;
      p.exact = m.exact;
      p.row.assign(1, 0);
      for (auto i : cells) {
        for (UL e = m.row[i]; e < m.row[i + 1]; ++e) {
          p.col.push_back(loc[m.col[e]]);
          p.w.push_back(m.w[e]);
        }
        p.row.push_back(p.col.size());
        p.vol.push_back(m.vol[i]);
        p.c.push_back(m.c[i]);
        p.prio.push_back(m.prio[i]);
        p.nbnd.push_back(m.nbnd[i]);
      }
      Config q = g;
      if (g.seed >= 10 && !lines && k != first) {
        q.seed -= 10;
        ctx.count(c_o);
      }
      q.compliant.clear();
      for (auto i : g.compliant)
        if (comp[i] == k) q.compliant.push_back(loc[i]);
      // Provided lines lie in one piece each
      std::vector<std::vector<UL>> given;
      for (size_t l = 0; l + 1 < g.lidx.size(); ++l)
        if (comp[g.lines[g.lidx[l]]] == k) {
          given.emplace_back();
          for (UL e = g.lidx[l]; e < g.lidx[l + 1]; ++e) given.back().push_back(loc[g.lines[e]]);
        }
      if (!g.lidx.empty()) set_lines(q, given);
      const auto s = call(p, q);
      ctx.trace();
      ctx.count(c_p);
      // Same coarse cells in the same order
      std::map<UL, UL> to;
      for (auto i : cells) to[r.f2c[i]];
      UL n = 0;
      for (auto &x : to) x.second = n++;
      const UL nb = n_aniso(q, s);
      bool ok = s.f2c.size() == cells.size();
      for (auto i : cells)
        if (ok) ok = (lines && g.seed >= 10 && r.f2c[i] >= lines && s.f2c[loc[i]] >= nb) || s.f2c[loc[i]] == to[r.f2c[i]];
      // Same lines
      std::vector<std::vector<UL>> want, got;
      if (lines)
        for (size_t l = 0; l + 1 < r.lidx.size(); ++l)
          if (to.count(r.lines.at(r.lidx[l]))) {
            want.emplace_back();
            for (UL e = r.lidx[l]; e < r.lidx[l + 1]; ++e) want.back().push_back(to.count(r.lines.at(e)) ? to[r.lines[e]] : m.n());
          }
      if (nb)
        for (size_t l = 0; l + 1 < s.lidx.size(); ++l) got.emplace_back(s.lines.begin() + static_cast<long>(s.lidx[l]), s.lines.begin() + static_cast<long>(s.lidx[l + 1]));
      if (!want.empty()) ctx.count(c_l);
      if (!ok || want != got) ctx.fail("piece " + str(cells) + " alone gives " + show(s) + " instead of its part of " + show(r));
    }
  };
  UOpt o;
  o.thorough = T;
  o.corr = {0, 2};
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o)) sp.push_back(as_space(u, f));
  // Connected graphs up to isomorphism
  struct Piece { int n; std::vector<std::pair<int, int>> e; };
  std::vector<Piece> ps;
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    std::set<u64> seen;
    for (u64 b = 0; b < n_graphs(n); ++b) {
      const auto a = graph_adj(n, b);
      std::vector<char> in(static_cast<size_t>(n), 0);
      std::vector<UL> st{0};
      in[0] = 1;
      while (!st.empty()) {
        const auto x = st.back();
        st.pop_back();
        for (auto y : a[x])
          if (!in[y]) {
            in[y] = 1;
            st.push_back(y);
          }
      }
      if (std::count(in.begin(), in.end(), 0)) continue;
      u64 canon = ~u64{0};
      auto p = all_cells(static_cast<size_t>(n));
      do {
        u64 c = 0;
        int e = 0;
        for (int i = 0; i < n; ++i)
          for (int j = i + 1; j < n; ++j, ++e)
            if (std::count(a[p[static_cast<size_t>(i)]].begin(), a[p[static_cast<size_t>(i)]].end(), p[static_cast<size_t>(j)])) c |= u64{1} << e;
        canon = std::min(canon, c);
      } while (std::next_permutation(p.begin(), p.end()));
      if (!seen.insert(canon).second) continue;
      Piece q{n, {}};
      for (int i = 0; i < n; ++i)
        for (auto j : a[static_cast<size_t>(i)])
          if (static_cast<int>(j) > i) q.e.emplace_back(i, static_cast<int>(j));
      ps.push_back(q);
    }
  }
  // Cells of the pieces one after the other, or in turn
  auto join = [](const std::vector<Piece> &v, bool turn, int pat) {
    int n = 0;
    for (const auto &p : v) n += p.n;
    std::vector<std::vector<int>> id(v.size());
    int k = 0;
    if (turn)
      for (int i = 0; k < n; ++i)
        for (size_t q = 0; q < v.size(); ++q) {
          if (i < v[q].n) id[q].push_back(k++);
        }
    else
      for (size_t q = 0; q < v.size(); ++q)
        for (int i = 0; i < v[q].n; ++i) id[q].push_back(k++);
    u64 bits = 0;
    for (size_t q = 0; q < v.size(); ++q)
      for (auto [a, b] : v[q].e) {
        const int x = std::min(id[q][static_cast<size_t>(a)], id[q][static_cast<size_t>(b)]), y = std::max(id[q][static_cast<size_t>(a)], id[q][static_cast<size_t>(b)]);
        bits |= u64{1} << (x * n - x * (x + 1) / 2 + y - x - 1);
      }
    return small_graph(n, bits, pat);
  };
  const std::vector<Card> cp{{3, 2, 4}, {2, 2, 2}, {4, 3, 5}};
  auto config = [=](Config &g, int s, int nb, int c, int k) {
    g.seed = kSeeds[s];
    g.neigh = nb;
    set_card(g, cp[static_cast<size_t>(c)]);
    g.ar = k % kNAR;
    g.fc_iter = 1 + k / kNAR % 2;
    set_corr(g, k / 3 % 3);
  };
  {
    static const int pats[4] = {1, 4, 6, 9};
    const Radix r{ps.size(), ps.size(), 2, 4, 4, 2, T ? u64{3} : u64{1}};
    sp.push_back(as_space({"pairs", "all pairs of the " + std::to_string(ps.size()) + " connected graphs on up to " + std::to_string(T ? 6 : 5) + " nodes up to isomorphism x 2 numberings x 4 attribute patterns x 4 seed orderings x 2 neighbourhoods, cardinalities", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = join({ps[static_cast<size_t>(d[0])], ps[static_cast<size_t>(d[1])]}, d[2], pats[d[3]]);
                             config(g, d[4], d[5], T ? d[6] : (d[0] + d[1]) % 3, d[0] + d[3]);
                           }}, f));
    std::vector<Piece> small;
    for (const auto &p : ps)
      if (p.n <= 4) small.push_back(p);
    const Radix q{small.size(), small.size(), small.size(), 2, 4, 4, 2};
    sp.push_back(as_space({"triples", "all triples of the " + std::to_string(small.size()) + " connected graphs on up to 4 nodes up to isomorphism x 2 numberings x 4 attribute patterns x 4 seed orderings x 2 neighbourhoods", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             m = join({small[static_cast<size_t>(d[0])], small[static_cast<size_t>(d[1])], small[static_cast<size_t>(d[2])]}, d[3], pats[d[4]]);
                             config(g, d[5], d[6], (d[0] + d[1]) % 3, d[0] + d[2] + d[4]);
                           }}, f));
  }
  {
    const Radix r{4095, 4, 2, 2};
    sp.push_back(as_space({"an3x4", "all cell subsets of a stretched 3x4 grid (all cells compliant) x 4 seed orderings x odd flag x 2 (geometry, limit, coupling)", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = grid(3, 4, 1, static_cast<u64>(d[0] + 1), d[3] ? 4 : 1, d[3] ? 3 : 2, 0);
                             g.aniso = true;
                             g.odd = d[2];
                             g.compliant = all_cells(m.n());
                             g.coupling = d[3];
                             g.maxc = max_option(d[3] ? 3 : 0);
                             g.athr = 2.;
                             config(g, d[1], d[0] % 2, d[0] % 3, d[0]);
                           }}, f));
    // Two columns without contact and a row below
    const u64 mask = 0x6DB6DB & ~u64{0x7000};
    auto base = [=](int pr) { return grid(3, 6, 1, mask & 0x3FFFF, 0, pr, 0); };
    auto sets = std::make_shared<std::vector<std::vector<std::vector<UL>>>>(line_sets(adjacency(base(0)), 2, 3, 2000000));
    const Radix q{sets->size(), 4, 2};
    sp.push_back(as_space({"linepieces", "all ordered sets of at most 2 disjoint oriented paths of at most 3 cells (" + std::to_string(sets->size()) + ") in a perforated 3x6 grid in several pieces as provided lines x 4 seed orderings x odd flag", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             m = base(d[0] % 4);
                             g.aniso = true;
                             g.build = false;
                             set_lines(g, (*sets)[static_cast<size_t>(d[0])]);
                             g.odd = d[2];
                             config(g, d[1], d[0] % 2, d[0] % 3, d[0]);
                           }}, f));
  }
  // Two larger pieces
  {
    static const UL N[4] = {9, 40, 65, 130};
    const Radix r{kScaleShapes, kScaleShapes, 4, 3, 2, 4, 2};
    sp.push_back(as_space({"largepairs", "all pairs of 12 shapes of 9 to 130 cells (second piece of another size) x 3 attribute patterns x 2 numberings x 4 seed orderings x 2 neighbourhoods", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int at[3] = {0, 1, 5};
                             const Mesh a = scale_mesh(d[0], N[d[2]], at[d[3]]), b = scale_mesh(d[1], N[(d[2] + 1 + d[0] % 3) % 4], at[d[3]]);
                             std::vector<std::pair<int, UL>> cells;  // piece, cell
                             for (UL k = 0; k < a.n() || k < b.n() || (!d[4] && k < a.n() + b.n()); ++k)
                               if (d[4]) {
                                 if (k < a.n()) cells.emplace_back(0, k);
                                 if (k < b.n()) cells.emplace_back(1, k);
                               } else
                                 cells.emplace_back(k < a.n() ? 0 : 1, k < a.n() ? k : k - a.n());
                             std::vector<UL> id[2] = {std::vector<UL>(a.n()), std::vector<UL>(b.n())};
                             for (UL k = 0; k < cells.size(); ++k) id[cells[k].first][cells[k].second] = k;
                             m = Mesh{};
                             m.dim = a.dim;
                             m.exact = a.exact && b.exact;
                             m.row = {0};
                             for (auto [q, k] : cells) {
                               const Mesh &p = q ? b : a;
                               for (UL e = p.row[k]; e < p.row[k + 1]; ++e) {
                                 m.col.push_back(id[q][p.col[e]]);
                                 m.w.push_back(p.w[e]);
                               }
                               m.row.push_back(m.col.size());
                               m.vol.push_back(p.vol[k]);
                               m.c.push_back(p.c[k]);
                               m.prio.push_back(p.prio[k]);
                               m.nbnd.push_back(p.nbnd[k]);
                             }
                             config(g, d[5], d[6], (d[0] + d[1]) % 3, d[0] + d[3]);
                             g.fc_iter = 1;
                           }}, f, 4));
  }
  mc::Options opt;
  opt.property = "P37";
  opt.rule = "each connected piece agglomerated alone gives the coarse cells and lines it has in the whole mesh";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs compared";
  return mc::drive(argc, argv, opt, sp);
}
