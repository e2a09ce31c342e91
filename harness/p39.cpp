// P39: what a coarse cell says of itself after every insertion of every
// history of insertions.
// TRY: p39_cell.cpp
// TRY: p39_sub.cpp
#include "p39.hpp"

#include "corrections.hpp"
#include "shapes.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_ins = mc::counter("insertions"), c_one = mc::counter("cells asked while holding one fine cell"), c_dis = mc::counter("cells asked while disconnected"), c_dense = mc::counter("disconnected cells without isolated fine cell"),
            c_rem = mc::counter("remembered connectivities compared"), c_none = mc::counter("histories of a class that is not available");
  std::vector<mc::Space> sp;
  // Histories: ordered groups of the cells outside the starting set, each group
  // inserted at once (one of the two ways when it is a single cell)
  auto add = [&](int n, std::vector<std::uint32_t> graphs, bool all, int most) {
    auto gs = std::make_shared<std::vector<std::uint32_t>>(graphs);
    auto parts = std::make_shared<std::vector<std::vector<std::vector<UL>>>>();
    parts->resize(n + 1);
    for (int k = 1; k <= n; ++k) (*parts)[k] = ordered_partitions(k);
    (*parts)[0] = {{}};
    const Radix r{gs->size(), u64{1} << n};
    mc::Space s;
    s.name = "cells" + std::to_string(n);
    s.what = (all ? "all labelled graphs on " : "all graphs up to isomorphism on ") + std::to_string(n) + " nodes x every starting set x every ordered partition of up to " + std::to_string(most) +
             " of the other cells into groups inserted at once (single ones in both ways) x compactness given or left to the cell x both kinds x both classes, asked after every insertion";
    s.size = r.total();
    s.chunk = 4;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const Mesh m = small_graph(n, (*gs)[d[0]], 0);
      const auto adj = adjacency(m);
      const auto start = subset_of(d[1], n);
      auto rest = subset_of(((u64{1} << n) - 1) ^ d[1], n);
      if (start.empty() || static_cast<int>(rest.size()) > most) return;
      const auto g = std::make_shared<Dual_Graph<UL, double, int>>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
      for (const auto &p : (*parts)[rest.size()])
        for (int way = 0; way < 4; ++way)
          for (int cls = 0; cls < 2; ++cls) {
            const bool given = way & 1, singly = way & 2, iso = (d[1] + p.size()) % 2;
            const auto cell = (cls ? full_cell : plain_cell)(g, d[1] % 5, Cells(start.begin(), start.end()), inner_links(adj, start), iso);
            if (!cell) {
              ctx.count(c_none);
              continue;
            }
            std::vector<UL> now = start;
            auto ask = [&](const std::string &when) {
              ctx.trans();
              ctx.state(mc::mix(mc::hash_seq(hash_mesh(m), now), d[1] * 2 + cls));
              auto bad = [&](const std::string &what) { ctx.fail(what + " " + when + (cls ? " (with subgraph)" : "") + (given ? ", compactness given" : "") + ", started with " + str(start)); };
              const auto st = cell->state();
              const std::set<UL> want(now.begin(), now.end());
              const bool con = connected(adj, now);
              const int k = inner_links(adj, now);
              if (st.cells != want) bad("holds " + str(st.cells) + " instead of " + str(want));
              if (cls && st.inside != want) bad("its subgraph holds " + str(st.inside) + " instead of " + str(want));
              if (st.cardinality != static_cast<int>(want.size())) bad("cardinality " + std::to_string(st.cardinality) + " with " + str(want));
              if (st.compactness != k) bad("compactness " + std::to_string(st.compactness) + " instead of " + std::to_string(k) + " with " + str(want));
              if (st.iso != iso) bad("changed kind");
              if (cell->connected() != con) bad(std::string("says it is ") + (con ? "not " : "") + "connected with " + str(want));
              const auto rem = cell->remembered();
              if (rem) {
                ctx.count(c_rem);
                if (*rem != con) bad(std::string("remembers as up to date that it is ") + (con ? "not " : "") + "connected with " + str(want));
              }
              if (want.size() == 1) ctx.count(c_one);
              if (!con) {
                ctx.count(c_dis);
                if (k > 0) ctx.count(c_dense);
              }
            };
            ask("when created");
            UL groups = 0;
            for (auto x : p) groups = std::max(groups, x + 1);
            for (UL q = 0; q < groups; ++q) {
              Cells add;
              for (size_t k = 0; k < p.size(); ++k)
                if (p[k] == q) add.insert(rest[k]);
              for (auto x : add) now.push_back(x);
              const auto k = given ? std::optional<int>(inner_links(adj, now)) : std::nullopt;
              if (add.size() == 1 && singly)
                cell->insert(*add.begin(), k);
              else
                cell->insert(add, k);
              ctx.count(c_ins);
              ask("after inserting " + str(std::set<UL>(add.begin(), add.end())));
              if (way == 3 && q % 2 == 0 && cls) {
                cell->refresh();
                const auto rem = cell->remembered();
                if (!rem || *rem != connected(adj, now)) ctx.fail("wrong or missing connectivity after an update, cells " + str(now));
              }
            }
            if (cls) {
              cell->refresh();
              const auto rem = cell->remembered();
              if (!rem || *rem != connected(adj, now)) ctx.fail("wrong or missing connectivity after the last update, cells " + str(now));
            }
            ctx.trace();
          }
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      Config c;
      return "coarse cell started with " + str(subset_of(d[1], n)) + " in\n" + describe(small_graph(n, (*gs)[d[0]], 0), c);
    };
    sp.push_back(s);
  };
  for (int n = 1; n <= 4; ++n) add(n, labelled_graphs(n), true, n);
  add(5, labelled_graphs(5), true, T ? 4 : 3);
  add(6, {kGraphs6.begin(), kGraphs6.end()}, false, T ? 5 : 4);
  if (T) add(7, {kGraphs7.begin(), kGraphs7.end()}, false, 4);
  // Larger cells: a few starting sets, the others inserted in a few ways
  {
    std::vector<UL> sizes;
    for (auto n : kScaleSizes)
      if (n > 6 && n <= (T ? 130 : 66)) sizes.push_back(n);
    const Radix r{kScaleShapes, sizes.size(), 5, 6, 2, 2};
    mc::Space s;
    s.name = "scale";
    s.what = "12 shapes of 7 to " + std::to_string(sizes.back()) + " cells x starting sets (first, middle or last cell, even cells, first half) x the others inserted one by one upwards, downwards, neighbours first, by pairs, by tens, all at once x compactness given or not x both classes, asked after every insertion";
    s.size = r.total();
    s.chunk = 4;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const UL n = sizes[d[1]];
      const Mesh m = scale_mesh(d[0], n, 0);
      const auto adj = adjacency(m);
      std::vector<UL> start, rest;
      for (UL k = 0; k < n; ++k) (d[2] == 0 ? k == 0 : d[2] == 1 ? k == n / 2 : d[2] == 2 ? k + 1 == n : d[2] == 3 ? k % 2 == 0 : k < n / 2) ? start.push_back(k) : rest.push_back(k);
      if (d[3] == 1) std::reverse(rest.begin(), rest.end());
      if (d[3] == 2) {
        std::vector<UL> order = start;
        std::set<UL> in(start.begin(), start.end());
        for (size_t k = 0; k < order.size(); ++k)
          for (auto y : adj[order[k]])
            if (in.insert(y).second) order.push_back(y);
        for (auto x : rest)
          if (in.insert(x).second) order.push_back(x);
        rest.assign(order.begin() + static_cast<long>(start.size()), order.end());
      }
      const size_t step = d[3] < 3 ? 1 : d[3] == 3 ? 2 : d[3] == 4 ? 10 : n;
      const auto g = std::make_shared<Dual_Graph<UL, double, int>>(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, std::vector<UL>{});
      const bool given = d[4], iso = (i / 3) % 2;
      const int cls = d[5];
      const auto cell = (cls ? full_cell : plain_cell)(g, n, Cells(start.begin(), start.end()), inner_links(adj, start), iso);
      if (!cell) return ctx.count(c_none);
      std::vector<UL> now = start;
      for (size_t at = 0;; at += step) {
        const auto st = cell->state();
        const std::set<UL> want(now.begin(), now.end());
        const bool con = connected(adj, now);
        const int k = inner_links(adj, now);
        const std::string when = " with " + std::to_string(now.size()) + " cells";
        ctx.trans();
        ctx.state(mc::mix(mc::hash_seq(hash_mesh(m), now), static_cast<u64>(cls)));
        if (st.cells != want || (cls && st.inside != want)) ctx.fail("holds " + str(st.cells) + " (" + str(st.inside) + ")" + when);
        if (st.cardinality != static_cast<int>(want.size())) ctx.fail("cardinality " + std::to_string(st.cardinality) + when);
        if (st.compactness != k) ctx.fail("compactness " + std::to_string(st.compactness) + " instead of " + std::to_string(k) + when);
        if (st.iso != iso) ctx.fail("changed kind" + when);
        if (cell->connected() != con) ctx.fail(std::string("says it is ") + (con ? "not " : "") + "connected" + when);
        if (cls && at % 3 == 0) cell->refresh();
        const auto rem = cell->remembered();
        if (rem && *rem != con) ctx.fail(std::string("remembers that it is ") + (con ? "not " : "") + "connected" + when);
        if (!con) ctx.count(c_dis);
        if (at >= rest.size()) break;
        Cells add;
        for (size_t q = at; q < std::min(rest.size(), at + step); ++q) {
          add.insert(rest[q]);
          now.push_back(rest[q]);
        }
        const auto c = given ? std::optional<int>(inner_links(adj, now)) : std::nullopt;
        if (step == 1 && i % 2)
          cell->insert(*add.begin(), c);
        else
          cell->insert(add, c);
        ctx.count(c_ins);
      }
      ctx.trace();
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      Config c;
      return "starting set " + std::to_string(d[2]) + ", insertions " + std::to_string(d[3]) + ", compactness given " + std::to_string(d[4]) + ", class " + std::to_string(d[5]) + " in\n" + describe(scale_mesh(d[0], sizes[d[1]], 0), c);
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P39";
  opt.rule = "members, cardinality, compactness, kind and connectivity equal those of the set of cells inserted so far";
  opt.states_meaning = "distinct (graph, class, starting set, cells held)";
  opt.transitions_meaning = "questions put to a coarse cell";
  opt.traces_meaning = "histories of insertions followed to the end";
  return mc::drive(argc, argv, opt, sp);
}
