// P22: every editing history of a local subgraph against the induced graph.
// TRY: p22_cc.cpp
#include "p22.hpp"
using namespace vf;

namespace {
double wgt(UL a, UL b) { return 1. + 1024. * static_cast<double>(std::min(a, b)) + static_cast<double>(std::max(a, b)); }
double vol(UL a) { return 0.5 + static_cast<double>(a * a); }
constexpr UL kBase = 7;  // global number of node k is kBase + 3 k

struct Global {
  int n;
  std::vector<std::vector<UL>> adj;
  UL id(UL k) const { return kBase + 3 * k; }
};

// Subgraph induced on a list of nodes
std::unique_ptr<Sub> induced(const Global &g, const std::vector<UL> &nodes) {
  std::vector<UL> row{0}, col, map;
  std::vector<double> w, v;
  for (auto x : nodes) {
    for (auto y : g.adj[x]) {
      const auto it = std::find(nodes.begin(), nodes.end(), y);
      if (it == nodes.end()) continue;
      col.push_back(it - nodes.begin());
      w.push_back(wgt(x, y));
    }
    row.push_back(col.size());
    v.push_back(vol(x));
    map.push_back(g.id(x));
  }
  return std::make_unique<Sub>(nodes.size(), row, col, w, v, map, true);
}

std::string compare(const Global &g, Sub &s, const std::vector<char> &present, bool ask) {
  std::vector<UL> exp, back;
  for (UL k = 0; k < present.size(); ++k)
    if (present[k]) exp.push_back(k);
  if (s._mapping_l_to_g.size() != exp.size()) return "the local-to-global map has " + std::to_string(s._mapping_l_to_g.size()) + " entries, " + std::to_string(exp.size()) + " nodes are present";
  for (auto x : s._mapping_l_to_g) {
    if (x < kBase || (x - kBase) % 3 || (x - kBase) / 3 >= present.size() || !present[(x - kBase) / 3]) return "the local-to-global map names " + std::to_string(x) + ", which is not present";
    back.push_back((x - kBase) / 3);
  }
  {
    auto b = back;
    std::sort(b.begin(), b.end());
    if (b != exp) return "the local-to-global map holds " + str(b) + ", present are " + str(exp);
  }
  const size_t n = exp.size();
  if (s._number_of_cells != n || s._cardinality != static_cast<int>(n))
    return "number of nodes " + std::to_string(s._number_of_cells) + " and cardinality " + std::to_string(s._cardinality) + ", expected " + std::to_string(n);
  if (s._m_CRS_Row_Ptr.size() != n + 1 || s._m_CRS_Row_Ptr[0] != 0) return "row pointers " + str(s._m_CRS_Row_Ptr) + " for " + std::to_string(n) + " nodes";
  if (s._m_CRS_Row_Ptr.back() != s._m_CRS_Col_Ind.size() || s._m_CRS_Col_Ind.size() != s._m_CRS_Values.size())
    return "row pointers " + str(s._m_CRS_Row_Ptr) + ", " + std::to_string(s._m_CRS_Col_Ind.size()) + " column indices, " + std::to_string(s._m_CRS_Values.size()) + " weights";
  if (s._volumes.size() != n) return std::to_string(s._volumes.size()) + " volumes for " + std::to_string(n) + " nodes";
  int comp = static_cast<int>(n);
  for (size_t i = 0; i < n; ++i) {
    if (s._m_CRS_Row_Ptr[i] > s._m_CRS_Row_Ptr[i + 1]) return "row pointers " + str(s._m_CRS_Row_Ptr);
    if (s._volumes[i] != vol(back[i])) return "volume of node " + std::to_string(back[i]) + " is " + std::to_string(s._volumes[i]);
    const auto nb = s.get_neighbours(i);
    const auto w = s.get_weights(i);
    std::vector<UL> got, want;
    for (size_t k = 0; k < nb.size(); ++k) {
      if (nb[k] >= n) return "node " + std::to_string(back[i]) + " has the local neighbour " + std::to_string(nb[k]);
      got.push_back(back[nb[k]]);
      if (w[k] != wgt(back[i], back[nb[k]])) return "weight of edge " + std::to_string(back[i]) + "-" + std::to_string(back[nb[k]]) + " is " + std::to_string(w[k]);
    }
    for (auto y : g.adj[back[i]])
      if (present[y]) want.push_back(y);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) return "neighbours of node " + std::to_string(back[i]) + " are " + str(got) + ", expected " + str(want);
    comp = std::min(comp, static_cast<int>(want.size()));
  }
  if (s._compactness != comp) return "compactness " + std::to_string(s._compactness) + ", expected " + std::to_string(comp);
  if (ask) {
    std::vector<char> reach(present.size(), 0);
    if (!exp.empty()) reach[exp[0]] = 1;
    for (bool ch = true, up = true; ch; up = !up) {
      ch = false;
      for (size_t q = 0; q < exp.size(); ++q) {
        const UL a = up ? exp[q] : exp[exp.size() - 1 - q];
        if (reach[a])
          for (auto b : g.adj[a])
            if (present[b] && !reach[b]) ch = reach[b] = 1;
      }
    }
    for (int k = 0; k < 2; ++k)
      if (s.check_connectivity() != (reach == present)) return std::string(k ? "the second" : "the first") + " connectivity query says " + (reach == present ? "no" : "yes") + " on nodes " + str(exp);
  }
  return {};
}

std::string compare(const Global &g, Sub &s, u64 bits, bool ask) {
  std::vector<char> present(static_cast<size_t>(g.n));
  for (int k = 0; k < g.n; ++k) present[static_cast<size_t>(k)] = bits >> k & 1;
  return compare(g, s, present, ask);
}

// Lists of the global neighbours in the order given to insert_node
void neighbours(const Global &g, UL x, int order, std::vector<UL> &nb, std::vector<double> &w) {
  auto a = g.adj[x];
  if (order == 1) std::reverse(a.begin(), a.end());
  if (order == 2 && a.size() > 1) std::rotate(a.begin(), a.begin() + 1, a.end());
  for (auto y : a) {
    nb.push_back(g.id(y));
    w.push_back(wgt(x, y));
  }
}
}  // namespace

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_i = mc::counter("insertions"), c_r = mc::counter("removals"), c_d = mc::counter("histories ending disconnected"), c_e = mc::counter("histories through the empty subgraph"),
            c_cc = mc::counter("insertions through a coarse cell");
  std::vector<mc::Space> sp;
  auto hist = [&](int n, int depth, int orders) {
    const Radix r{n_graphs(n), u64{1} << n, static_cast<u64>(orders), 2};
    mc::Space s;
    s.name = "histories" + std::to_string(n);
    s.what = "all labelled graphs on " + std::to_string(n) + " nodes x all starting subsets x " + std::to_string(orders) + " neighbour orders x connectivity asked always/last x all histories of " + std::to_string(depth) + " edits";
    s.size = r.total();
    s.chunk = 8;
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      return "graph " + std::to_string(d[0]) + " on " + std::to_string(n) + " nodes, starting from " + str(subset_of(d[1], n));
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      Global g{n, {}};
      for (auto &a : graph_adj(n, d[0])) g.adj.emplace_back(a.begin(), a.end());
      auto start = subset_of(d[1], n);
      if (start.empty()) return;
      if (d[2] == 1) std::reverse(start.begin(), start.end());
      std::vector<UL> h;
      std::function<void(u64, bool)> go = [&](u64 now, bool empty) {
        // replay the history
        auto s = induced(g, start);
        u64 p = d[1];
        for (size_t k = 0; k < h.size(); ++k) {
          const UL x = h[k];
          if (p >> x & 1) {
            s->remove_node(g.id(x));
          } else {
            std::vector<UL> nb;
            std::vector<double> w;
            neighbours(g, x, static_cast<int>(d[2]), nb, w);
            s->insert_node(nb, g.id(x), vol(x), w);
          }
          p ^= u64{1} << x;
          if (d[3] && k + 1 < h.size()) s->check_connectivity();
        }
        const auto e = compare(g, *s, now, true);
        if (!e.empty()) {
          std::string t = "start " + str(start) + ", edits";
          u64 q = d[1];
          for (auto x : h) {
            t += (q >> x & 1 ? " -" : " +") + std::to_string(x);
            q ^= u64{1} << x;
          }
          ctx.fail(t + ": " + e);
        }
        if (!h.empty()) ctx.count((now >> h.back() & 1) ? c_i : c_r);
        ctx.trans();
        ctx.state(mc::mix(mc::mix(mc::mix(d[0], n), d[1] * 8 + d[2]), mc::hash_seq(now, h)));
        if (static_cast<int>(h.size()) == depth) {
          ctx.trace();
          if (empty) ctx.count(c_e);
          if (now && !s->check_connectivity()) ctx.count(c_d);
          return;
        }
        for (int x = 0; x < n; ++x) {
          h.push_back(x);
          const u64 nx = now ^ (u64{1} << x);
          go(nx, empty || !nx);
          h.pop_back();
        }
      };
      go(d[1], false);
    };
    sp.push_back(s);
  };
  hist(2, 6, 3);
  hist(3, 6, 3);
  hist(4, T ? 6 : 4, 3);
  hist(5, T ? 4 : 2, T ? 3 : 2);
  if (T) hist(4, 7, 1);
  // --- through coarse cells holding their subgraph
  {
    const Radix r{n_graphs(4), 16};
    mc::Space s;
    s.name = "coarse_cells";
    s.what = "all labelled graphs on 4 nodes x all starting subsets x all orders of single insertions and of insertions in groups, through a coarse cell holding its subgraph";
    s.size = r.total();
    s.chunk = 8;
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      return "coarse cell " + str(subset_of(d[1], 4)) + " of graph " + std::to_string(d[0]) + " on 4 nodes";
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      Global g{4, {}};
      for (auto &a : graph_adj(4, d[0])) g.adj.emplace_back(a.begin(), a.end());
      // global graph over all the numbers up to id(3): the others are isolated
      const UL N = g.id(3) + 1;
      std::vector<UL> row{0}, col;
      std::vector<double> w, v(N, 1.);
      for (UL k = 0; k < N; ++k) {
        if (k >= kBase && (k - kBase) % 3 == 0) {
          const UL x = (k - kBase) / 3;
          v[k] = vol(x);
          for (auto y : g.adj[x]) {
            col.push_back(g.id(y));
            w.push_back(wgt(x, y));
          }
        }
        row.push_back(col.size());
      }
      const std::vector<std::vector<double>> c(N, {0., 0.});
      const std::vector<int> nb(N, 0);
      const auto G = std::make_shared<Dual_Graph<UL, double, int>>(N, row, col, w, v, c, nb, 2, std::vector<UL>{});
      const auto start = subset_of(d[1], 4), rest = subset_of(15 ^ d[1], 4);
      if (start.empty()) return;
      std::unordered_set<UL> s0;
      for (auto x : start) s0.insert(g.id(x));
      auto perm = rest;
      do {
        for (size_t grp = 0; grp <= perm.size(); ++grp) {  // the first grp cells one by one, the others together
          auto cell = make_cell(G, s0, G->compute_min_fc_compactness_inside_a_cc(s0));
          if (!cell) return;
          u64 now = d[1];
          auto chk = [&] {
            ctx.trans();
            ctx.state(mc::mix(mc::mix(d[0], 99), now * 16 + d[1]));
            const auto e = compare(g, cell->graph(), now, true);
            if (!e.empty()) ctx.fail("cells inserted in the order " + str(perm) + ", the first " + std::to_string(grp) + " one by one: " + e);
            if (cell->connected() != cell->graph().check_connectivity()) ctx.fail("the cell and its subgraph disagree on connectivity");
          };
          chk();
          for (size_t k = 0; k < grp; ++k) {
            cell->insert(g.id(perm[k]));
            now |= u64{1} << perm[k];
            ctx.count(c_cc);
            chk();
          }
          std::unordered_set<UL> more;
          for (size_t k = grp; k < perm.size(); ++k) {
            more.insert(g.id(perm[k]));
            now |= u64{1} << perm[k];
          }
          cell->insert(more);
          ctx.count(c_cc, more.size());
          chk();
        }
      } while (std::next_permutation(perm.begin(), perm.end()));
      ctx.trace();
    };
    sp.push_back(s);
  }
  // --- long histories on larger graphs
  {
    const Radix r{kScaleShapes, kScaleSizes.size(), 7, 2};
    mc::Space s;
    s.name = "scale";
    s.what = std::string(kScaleWhat) + " x 7 histories (grown upwards or downwards then emptied, every other node removed and put back, best linked node removed and put back then its neighbours, strides, emptied and filled, neighbours of each node in turn) x 2 neighbour orders, compared after every edit (every 7th beyond 66 nodes)";
    s.size = r.total();
    s.chunk = 4;
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      return "shape " + std::to_string(d[0]) + " of " + std::to_string(kScaleSizes[d[1]]) + " nodes, history " + std::to_string(d[2]);
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const UL n = kScaleSizes[d[1]];
      const Global g{static_cast<int>(n), scale_adj(d[0], n)};
      UL hub = 0;
      for (UL k = 0; k < n; ++k)
        if (g.adj[k].size() > g.adj[hub].size()) hub = k;
      std::vector<UL> start, h;  // h: nodes whose presence is toggled
      auto up = [&](UL a, UL step) {
        for (UL k = a; k < n; k += step) h.push_back(k);
      };
      switch (d[2]) {
        case 0:
          start = {0};
          up(1, 1);
          up(0, 1);
          break;
        case 1:
          start = {n - 1};
          for (UL k = n - 1; k-- > 0;) h.push_back(k);
          up(0, 1);
          break;
        case 2:
          start = all_cells(n);
          up(0, 2);
          for (UL k = n; k-- > 0;)
            if (k % 2 == 0) h.push_back(k);
          up(1, 2);
          break;
        case 3:
          start = all_cells(n);
          h = {hub, hub, hub, hub};
          for (auto y : g.adj[hub]) h.push_back(y);
          h.push_back(hub);
          for (auto y : g.adj[hub]) h.push_back(y);
          h.push_back(hub);
          break;
        case 4:
          for (UL k = 0; k < n; k += 2) start.push_back(k);
          for (UL k = 0; k < 2 * n; ++k) h.push_back(k * 7 % n);
          break;
        case 5:
          start = all_cells(n);
          std::reverse(start.begin(), start.end());
          up(0, 1);
          up(0, 1);
          break;
        default:
          start = all_cells(n);
          for (UL k = 0; k < n; k += 1 + n / 8)
            for (int twice = 0; twice < 2; ++twice)
              for (auto y : g.adj[k]) h.push_back(y);
      }
      std::vector<char> now(n, 0);
      for (auto x : start) now[x] = 1;
      auto sub = induced(g, start);
      for (size_t k = 0; k <= h.size(); ++k) {
        if (k) {
          const UL x = h[k - 1];
          if (now[x]) {
            sub->remove_node(g.id(x));
            ctx.count(c_r);
          } else {
            std::vector<UL> nb;
            std::vector<double> w;
            neighbours(g, x, d[3] ? 1 : 0, nb, w);
            sub->insert_node(nb, g.id(x), vol(x), w);
            ctx.count(c_i);
          }
          now[x] ^= 1;
        }
        ctx.trans();
        if (n > 66 && k % 7 && k + 1 < h.size()) continue;
        ctx.state(mc::mix(mc::mix(i, 77), k));
        const auto e = compare(g, *sub, now, true);
        if (!e.empty()) return ctx.fail("after " + std::to_string(k) + " edits of " + str(h) + " from " + str(start) + ": " + e);
      }
      ctx.trace();
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P22";
  opt.rule = "after every edit the subgraph equals the induced graph on the present nodes, and connectivity queries are right";
  opt.states_meaning = "distinct (global graph, start, history) situations";
  opt.transitions_meaning = "edits replayed and compared";
  opt.traces_meaning = "complete histories";
  return mc::drive(argc, argv, opt, sp);
}
