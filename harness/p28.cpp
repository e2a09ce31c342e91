// TRY: p28_more.cpp
// P28: the books of the coarse-cell container, after every operation of every
// short history and after every correction.
#include "p28.hpp"

#include "corrections.hpp"
#include "shapes.hpp"
using namespace vf;

namespace {
enum Kind { ISO, ANISO, DELAYED };
struct Rec {
  std::set<UL> cells;
  int compactness;
  bool iso;
};
}  // namespace

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_op = mc::counter("creations"), c_del = mc::counter("delayed creations"), c_fl = mc::counter("delayed ones created"), c_corr = mc::counter("corrections"), c_less = mc::counter("corrections that removed coarse cells"),
            c_stub = mc::counter("histories without the optional part");
  const bool more = more_available();
  // expected books against the container
  auto compare = [=](const Container &c, size_t n, const std::vector<Rec> &ccs, const std::vector<bool> &flag, mc::Ctx &ctx, const std::string &when) {
    auto bad = [&](const std::string &s) { ctx.fail(s + " " + when); };
    if (c._ccs.size() != ccs.size()) return bad(std::to_string(c._ccs.size()) + " coarse cells stored instead of " + std::to_string(ccs.size()));
    std::vector<long> f2c(n, -1);
    for (size_t k = 0; k < ccs.size(); ++k)
      for (auto x : ccs[k].cells) f2c[x] = static_cast<long>(k);
    size_t nf = 0;
    for (UL x = 0; x < n; ++x) {
      nf += flag[x];
      if (c._is_fc_agglomerated[x] != flag[x]) bad("wrong agglomerated flag of cell " + std::to_string(x));
      if (c._fc_2_cc[x].has_value() != (f2c[x] >= 0) || (f2c[x] >= 0 && c._fc_2_cc[x].value() != static_cast<UL>(f2c[x]))) bad("wrong coarse cell of cell " + std::to_string(x));
    }
    if (c._fc_2_cc.size() != n || c._is_fc_agglomerated.size() != n) bad("vectors resized");
    if (static_cast<size_t>(c.get_number_of_fc_agglomerated()) != nf) bad("number of agglomerated cells is " + std::to_string(c.get_number_of_fc_agglomerated()) + " instead of " + std::to_string(nf));
    for (size_t k = 0; k < ccs.size(); ++k) {
      const auto it = c._ccs.find(k);
      if (it == c._ccs.end()) return bad("no coarse cell stored under " + std::to_string(k));
      if (it->second->_cardinality != static_cast<int>(ccs[k].cells.size())) bad("cardinality of coarse cell " + std::to_string(k) + " is " + std::to_string(it->second->_cardinality));
      if (more) {
        const auto v = view(c, k);
        if (v.cells != ccs[k].cells) bad("cells of coarse cell " + std::to_string(k) + " are " + str(v.cells));
        if (v.compactness != ccs[k].compactness) bad("compactness of coarse cell " + std::to_string(k) + " is " + std::to_string(v.compactness) + " instead of " + std::to_string(ccs[k].compactness));
        if (v.idx != k) bad("coarse cell " + std::to_string(k) + " says it is " + std::to_string(v.idx));
        if (v.iso != ccs[k].iso) bad("wrong kind of coarse cell " + std::to_string(k));
      }
    }
  };
  std::vector<mc::Space> sp;
  // --- creations: every ordered partition of the cells, every kind for each
  // group, every position at which the delayed ones are created, every prefix
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    auto parts = std::make_shared<std::vector<std::vector<UL>>>(ordered_partitions(n));
    mc::Space s;
    s.name = "books" + std::to_string(n);
    s.what = "every ordered partition of " + std::to_string(n) + " cells, each group created as isotropic, anisotropic or delayed, the delayed ones created after any one of the steps and again at the end, books compared after every step";
    s.size = parts->size();
    s.chunk = 8;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const Mesh m = small_graph(n, n_graphs(n) - 1, 0);
      const auto adj = adjacency(m);
      std::vector<std::vector<UL>> gs;
      for (UL x = 0; x < m.n(); ++x) {
        const UL k = (*parts)[i][x];
        if (k >= gs.size()) gs.resize(k + 1);
        gs[k].push_back(x);
      }
      const size_t K = gs.size();
      u64 kinds = 1;
      for (size_t k = 0; k < K; ++k) kinds *= more ? 3 : 2;
      for (u64 q = 0; q < kinds; ++q)
        for (size_t flush = 0; flush <= K; ++flush) {
          if (!more && flush) break;
          auto g = std::make_shared<Dual_Graph<UL, double, int>>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
          Container c(g, 1 + static_cast<int>(q % 3));
          std::vector<Rec> ccs, waiting;
          std::vector<bool> flag(m.n(), false);
          u64 kd = q, h = mc::mix(i, static_cast<u64>(n));
          auto fl = [&](const std::string &w) {
            if (!more) return;
            create_delayed(c);
            for (auto &r : waiting) ccs.push_back(r);
            ctx.count(c_fl, waiting.size());
            waiting.clear();
            ctx.trans();
            compare(c, m.n(), ccs, flag, ctx, w);
            if (number_of_cc(c) != ccs.size()) ctx.fail("wrong number of coarse cells " + w);
          };
          for (size_t k = 0; k < K; ++k) {
            if (k == flush) fl("after creating the delayed ones before group " + std::to_string(k) + " kinds " + std::to_string(q));
            const int kind = static_cast<int>(kd % (more ? 3 : 2));
            kd /= more ? 3 : 2;
            const std::unordered_set<UL> set(gs[k].begin(), gs[k].end());
            const Rec r{{gs[k].begin(), gs[k].end()}, inner_links(adj, gs[k]), kind != ANISO};
            for (auto x : gs[k]) flag[x] = true;
            ctx.trans();
            ctx.count(c_op);
            const std::string when = "after group " + std::to_string(k) + " " + str(gs[k]) + " kinds " + std::to_string(q) + " delayed ones created before " + std::to_string(flush);
            if (kind == DELAYED) {
              ctx.count(c_del);
              request_delayed(c, set, r.compactness);
              waiting.push_back(r);
            } else {
              const UL id = c.create_cc(set, r.compactness, kind == ANISO);
              if (id != ccs.size()) ctx.fail("identifier " + std::to_string(id) + " returned " + when);
              ccs.push_back(r);
            }
            h = mc::mix(h, static_cast<u64>(kind) * 64 + k);
            ctx.state(h);
            compare(c, m.n(), ccs, flag, ctx, when);
            if (more && number_of_cc(c) != ccs.size()) ctx.fail("wrong number of coarse cells " + when);
          }
          fl("after creating the delayed ones at the end, kinds " + std::to_string(q));
          ctx.trace();
          if (!more) ctx.count(c_stub);
        }
    };
    s.describe = [=](u64 i) { return "groups of the cells " + str((*parts)[i]) + "; kinds are digits in base 3, first group first: 0 isotropic, 1 anisotropic, 2 delayed"; };
    sp.push_back(s);
  }
  // two corrections of given coarse cells
  auto corrections = [=](const Mesh &m, const std::vector<std::vector<UL>> &cells, mc::Ctx &ctx) {
    const auto adj = adjacency(m);
    for (size_t na = 0; na < 2 && na < cells.size(); ++na)
      for (int t = 1; t <= 3; t += 2) {
        auto g = std::make_shared<Dual_Graph<UL, double, int>>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
        Container c(g, t);
        for (size_t k = 0; k < cells.size(); ++k) c.create_cc(std::unordered_set<UL>(cells[k].begin(), cells[k].end()), inner_links(adj, cells[k]), k < na);
        c.correct(4);
        ctx.count(c_corr);
        ctx.trans();
        std::vector<Rec> ccs;
        for (UL x = 0; x < m.n(); ++x) {
          if (!c._fc_2_cc[x].has_value()) return ctx.fail("cell " + std::to_string(x) + " lost");
          const UL k = c._fc_2_cc[x].value();
          if (k >= cells.size()) return ctx.fail("identifier " + std::to_string(k) + " beyond the number of coarse cells");
          if (k >= ccs.size()) ccs.resize(k + 1);
          ccs[k].cells.insert(x);
        }
        for (size_t k = 0; k < ccs.size(); ++k) {
          ccs[k].iso = k >= na;
          ccs[k].compactness = inner_links(adj, {ccs[k].cells.begin(), ccs[k].cells.end()});
          if (k < na && std::vector<UL>(ccs[k].cells.begin(), ccs[k].cells.end()) != cells[k]) ctx.fail("anisotropic coarse cell " + std::to_string(k) + " changed");
        }
        if (ccs.size() < cells.size()) ctx.count(c_less);
        const std::string when = "after the correction with threshold " + std::to_string(t) + " and " + std::to_string(na) + " anisotropic";
        compare(c, m.n(), ccs, std::vector<bool>(m.n(), true), ctx, when);
        if (more && number_of_cc(c) != ccs.size()) ctx.fail(std::to_string(number_of_cc(c)) + " coarse cells counted instead of " + std::to_string(ccs.size()) + " " + when);
        try {
          c.correct(4);
        } catch (const std::exception &e) {
          return ctx.fail(std::string("exception (") + e.what() + ") when correcting again " + when);
        }
        ctx.trans();
        compare(c, m.n(), ccs, std::vector<bool>(m.n(), true), ctx, "when corrected again " + when);
      }
  };
  // --- corrections: the books afterwards agree with the map
  for (int n = 4; n <= (T ? 7 : 6); ++n) {
    auto parts = std::make_shared<std::vector<std::vector<UL>>>(ordered_partitions(n));
    std::vector<std::uint32_t> graphs = n <= 4 ? labelled_graphs(n) : n == 5 ? labelled_graphs(5) : n == 6 ? std::vector<std::uint32_t>(kGraphs6.begin(), kGraphs6.end()) : std::vector<std::uint32_t>(kGraphs7.begin(), kGraphs7.end());
    auto gs = std::make_shared<std::vector<std::uint32_t>>(graphs);
    const Radix r{gs->size(), parts->size()};
    mc::Space s;
    s.name = "corrected" + std::to_string(n);
    s.what = "correction of every ordered partition into connected coarse cells of " + std::to_string(gs->size()) + " graphs on " + std::to_string(n) + " nodes, the first 0 or 1 of them anisotropic, two thresholds, books compared with the map afterwards";
    s.size = r.total();
    s.chunk = 4096;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const Mesh m = small_graph(n, (*gs)[d[0]], 0);
      Result a;
      a.f2c = (*parts)[d[1]];
      const auto cells = groups(m, a);
      const auto adj = adjacency(m);
      for (const auto &x : cells)
        if (!connected(adj, x)) return;
      ctx.state(mc::mix(hash_mesh(m), d[1]));
      corrections(m, cells, ctx);
      ctx.trace();
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      Config g;
      return "coarse cells before the correction " + str((*parts)[d[1]]) + "\n" + describe(small_graph(n, (*gs)[d[0]], 0), g);
    };
    sp.push_back(s);
  }
  {
    std::vector<UL> sizes;
    for (auto n : kScaleSizes)
      if (n <= (T ? 300 : 130)) sizes.push_back(n);
    const Radix r{kScaleShapes, sizes.size(), kSizes.size(), 2};
    mc::Space s;
    s.name = "gathered";
    s.what = "12 shapes x sizes up to " + std::to_string(sizes.back()) + " gathered in coarse cells of 9 patterns of sizes, lowest or highest number first, the first 0 or 1 anisotropic, corrected with two thresholds, books compared with the map afterwards";
    s.size = r.total();
    s.chunk = 4;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const Mesh m = scale_mesh(d[0], sizes[d[1]], 0);
      ctx.state(mc::mix(hash_mesh(m), d[2] * 2 + d[3]));
      corrections(m, gathered(adjacency(m), d[2], d[3]), ctx);
      ctx.trace();
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      const Mesh m = scale_mesh(d[0], sizes[d[1]], 0);
      std::string c;
      for (const auto &x : gathered(adjacency(m), d[2], d[3])) c += str(x) + " ";
      Config g;
      return "coarse cells before the correction " + c + "\n" + describe(m, g);
    };
    sp.push_back(s);
  }
  // --- many coarse cells, and large ones
  {
    const Radix r{6, 2};
    mc::Space s;
    s.name = "many";
    s.what = "70000 single cells, 140000 cells in pairs, 300 cells in groups of 1 to 24, isotropic or anisotropic; books compared at the end";
    s.size = r.total();
    s.chunk = 1;
    auto size = [](int k, size_t step) -> size_t { return k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 1 + step % 24 : k == 3 ? 9 : k == 4 ? 64 : 300; };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const UL n = d[0] == 0 ? 70000 : d[0] == 1 ? 140000 : 300;
      std::vector<std::vector<UL>> adj(n);
      for (UL k = 0; k + 1 < n; ++k) {
        adj[k].push_back(k + 1);
        adj[k + 1].push_back(k);
      }
      Mesh m;
      set_graph(m, adj, [](UL, UL) { return 1.; });
      m.vol.assign(n, 1.);
      m.c.assign(n, {0., 0.});
      m.nbnd.assign(n, 0);
      auto g = std::make_shared<Dual_Graph<UL, double, int>>(n, m.row, m.col, m.w, m.vol, m.c, m.nbnd, 2, std::vector<UL>{});
      Container c(g, 1);
      std::vector<Rec> ccs;
      for (UL x = 0; x < n;) {
        const UL e = std::min<UL>(n, x + size(static_cast<int>(d[0]), ccs.size()));
        std::vector<UL> v;
        for (; x < e; ++x) v.push_back(x);
        const int links = v.size() > 1 ? 1 : 0;
        const UL id = c.create_cc(std::unordered_set<UL>(v.begin(), v.end()), links, d[1]);
        ctx.trans();
        ctx.count(c_op);
        if (id != ccs.size()) ctx.fail("identifier " + std::to_string(id) + " returned for coarse cell " + std::to_string(ccs.size()));
        ccs.push_back({{v.begin(), v.end()}, links, !d[1]});
      }
      ctx.state(mc::mix(991, i));
      compare(c, n, ccs, std::vector<bool>(n, true), ctx, "at the end");
      if (more && number_of_cc(c) != ccs.size()) ctx.fail("wrong number of coarse cells at the end");
      ctx.trace();
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      return "family " + std::to_string(d[0]) + " of the space, " + (d[1] ? "anisotropic" : "isotropic");
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P28";
  opt.rule = "identifiers, maps, flags, counts, members, cardinalities, kinds and compactness equal the reference books";
  opt.states_meaning = "distinct histories of creations, and distinct partitions corrected";
  opt.transitions_meaning = "container operations";
  opt.traces_meaning = "histories whose books were compared after every operation";
  return mc::drive(argc, argv, opt, sp);
}
