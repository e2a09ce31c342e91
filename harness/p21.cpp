// P21: neighbourhoods of seed sets against a breadth-first reference, and candidate lists of growing coarse cells
// against reference models, over every growth sequence.
#include <deque>
#include <map>
#include "scale.hpp"
#include "CoMMA/Neighbourhood.h"
using namespace vf;

namespace {
using NB = Neighbourhood<UL, double, int>;
using Ext = Neighbourhood_Extended<UL, double, int>;
using PF = Neighbourhood_Pure_Front<UL, double, int>;

std::vector<double> priorities(int n, int kind) {
  std::vector<double> p(n, 1.);
  for (int i = 0; i < n; ++i) switch (kind) {
      case 1: p[i] = i; break;
      case 2: p[i] = i % 2; break;
      case 3: p[i] = -(i % 3) - 1.; break;
      case 4: p[i] = (n - i) * .5; break;
      default: break;
    }
  return p;
}

// Reference candidate lists
struct Ref {
  int kind;  // 0 extended, 2/3 pure front of that dimension
  const std::vector<double> *w;
  std::set<UL> allowed, in;
  std::vector<UL> cand;
  std::vector<std::set<UL>> fronts;  // oldest first

  void sorted(std::vector<UL> &v) const {
    std::sort(v.begin(), v.end(), [&](UL a, UL b) { return (*w)[a] != (*w)[b] ? (*w)[a] > (*w)[b] : a < b; });
  }
  void add(UL x, const std::set<UL> &nb) {
    in.insert(x);
    if (kind == 0) {
      cand.erase(std::remove(cand.begin(), cand.end(), x), cand.end());
      std::vector<UL> fresh;
      for (auto y : nb)
        if (allowed.count(y) && !in.count(y) && std::find(cand.begin(), cand.end(), y) == cand.end()) fresh.push_back(y);
      sorted(fresh);
      cand.insert(cand.end(), fresh.begin(), fresh.end());
      return;
    }
    for (auto &f : fronts) f.erase(x);
    std::set<UL> f;
    for (auto y : nb)
      if (allowed.count(y) && !in.count(y)) f.insert(y);
    fronts.push_back(f);
    std::set<UL> out;
    const int k = static_cast<int>(fronts.size());
    if (k <= kind) {
      for (auto &g : fronts) out.insert(g.begin(), g.end());
    } else {
      // the newest, the oldest, the second newest, the second oldest...
      for (int a = k - 1, b = 0; a >= b && out.empty(); --a, ++b) {
        out = fronts[a];
        if (out.empty()) out = fronts[b];
      }
    }
    cand.assign(out.begin(), out.end());
    sorted(cand);
  }
};
}  // namespace

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_q = mc::counter("neighbourhoods of seed sets"), c_ext = mc::counter("neighbourhoods extended beyond the order"),
            c_far = mc::counter("neighbourhoods reaching distance 3 or more"), c_st = mc::counter("growth steps"),
            c_cl = mc::counter("independent copies"), c_old = mc::counter("pure-front steps that fell back on an older front");
  std::vector<mc::Space> sp;
  auto add = [&](const Gen &g, std::function<void(u64, const Mesh &, mc::Ctx &)> f, u64 chunk) {
    mc::Space s;
    s.name = g.name;
    s.what = g.what;
    s.size = g.size;
    s.chunk = chunk;
    auto make = g.make;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      Config c;
      make(i, m, c);
      f(i, m, ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      Config c;
      make(i, m, c);
      return describe(m, c);
    };
    sp.push_back(s);
  };
  // --- neighbourhoods of seed sets
  auto bfs = [=](const Mesh &m, const std::vector<u64> &seedsets, int maxorder, const std::vector<int> &cards, mc::Ctx &ctx) {
    const size_t n = m.n();
    const auto adj = adjacency(m);
    const Dual_Graph<UL, double, int> g(n, m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, all_cells(n));
    const u64 hm = hash_mesh(m);
    for (u64 s : seedsets)
      for (u64 a = 0; a < (u64{1} << n); ++a) {
        std::vector<bool> agg(n);
        for (size_t k = 0; k < n; ++k) agg[k] = a >> k & 1;
        // distances through unagglomerated cells
        std::vector<int> dist(n, -1);
        std::deque<UL> q;
        std::unordered_set<UL> seeds;
        for (size_t k = 0; k < n; ++k)
          if (s >> k & 1) {
            dist[k] = 0;
            q.push_back(k);
            seeds.insert(k);
          }
        while (!q.empty()) {
          const UL x = q.front();
          q.pop_front();
          for (auto y : adj[x])
            if (dist[y] < 0 && !agg[y]) {
              dist[y] = dist[x] + 1;
              q.push_back(y);
            }
        }
        ctx.state(mc::mix(mc::mix(hm, s), a));
        for (int order = 1; order <= maxorder; ++order)
          for (int card : cards) {
            int lim = 0;
            for (int k = 1;; ++k) {
              int have = 0, next = 0;
              for (int d : dist) {
                have += d >= 0 && d < k;
                next += d == k;
              }
              if (!next || (k > order && have >= card)) break;
              lim = k;
            }
            std::map<UL, int> exp;
            for (size_t k = 0; k < n; ++k)
              if (dist[k] > 0 && dist[k] <= lim) exp[k] = dist[k];
            int o = order;
            std::unordered_map<UL, int> got;
            g.compute_neighbourhood_of_cc(seeds, o, got, card, agg);
            ctx.trans();
            ctx.count(c_q);
            if (lim > order) ctx.count(c_ext);
            if (lim > 2) ctx.count(c_far);
            if (std::map<UL, int>(got.begin(), got.end()) != exp || o < lim) {
              std::string t = "neighbourhood of " + str(subset_of(s, n)) + " within " + std::to_string(order) + " steps, at least " +
                              std::to_string(card) + " cells, agglomerated " + str(subset_of(a, n)) + ": got";
              for (auto &[x, d] : std::map<UL, int>(got.begin(), got.end())) t += " " + std::to_string(x) + "@" + std::to_string(d);
              t += " (order " + std::to_string(o) + "), expected";
              for (auto &[x, d] : exp) t += " " + std::to_string(x) + "@" + std::to_string(d);
              ctx.fail(t);
            }
          }
      }
    ctx.trace();
  };
  auto every = [](size_t n) {
    std::vector<u64> v;
    for (u64 s = 1; s < (u64{1} << n); ++s) v.push_back(s);
    return v;
  };
  auto ones = [](size_t n) {
    std::vector<u64> v;
    for (size_t s = 0; s < n; ++s) v.push_back(u64{1} << s);
    return v;
  };
  for (int n = 1; n <= 5; ++n) {
    std::vector<int> cards{2, 3, 4};
    if (n < 5 || T) cards = {2, 3, 4, 5, 6};
    add({"graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x all seed sets x all agglomerated subsets x orders x cardinalities", n_graphs(n), [=](u64 i, Mesh &m, Config &) { m = small_graph(n, i, 0); }},
        [=](u64, const Mesh &m, mc::Ctx &ctx) { bfs(m, every(m.n()), n < 5 || T ? 4 : 3, cards, ctx); }, 8);
  }
  add({"paths", "paths, rings and stars of 6 to 9 cells x every seed (pair) x all agglomerated subsets", 12, [=](u64 i, Mesh &m, Config &) {
         const int n = 6 + static_cast<int>(i) / 3;
         u64 bits = 0;
         // edges numbered as in small_graph: pairs (a<b) in lexicographic order
         int e = 0;
         for (int a = 0; a < n; ++a)
           for (int b = a + 1; b < n; ++b, ++e) {
             const bool on = i % 3 == 2 ? a == 0 : (b == a + 1 || (i % 3 == 1 && a == 0 && b == n - 1));
             if (on) bits |= u64{1} << e;
           }
         m = small_graph(n, bits, 0);
       }},
      [=](u64, const Mesh &m, mc::Ctx &ctx) {
        auto v = ones(m.n());
        for (size_t a = 0; a < m.n(); ++a) v.push_back((u64{1} << a) | (u64{1} << ((a + 3) % m.n())));
        bfs(m, v, 5, {2, 4, 6, 8, 12}, ctx);
      }, 1);
  add({"grids", "3x3, 2x4 and 2x2x2 grids x every seed x all agglomerated subsets", 3, [=](u64 i, Mesh &m, Config &) {
         m = i == 0 ? grid(3, 3, 1, ~u64{0}, 0, 0, 0) : i == 1 ? grid(2, 4, 1, ~u64{0}, 0, 0, 0) : grid(2, 2, 2, ~u64{0}, 0, 0, 0);
       }},
      [=](u64, const Mesh &m, mc::Ctx &ctx) { bfs(m, ones(m.n()), 4, {2, 4, 6, 9}, ctx); }, 1);
  // --- growth sequences
  auto grow = [=](const Mesh &m, const std::vector<u64> &alloweds, int prios, int depth, mc::Ctx &ctx) {
    const size_t n = m.n();
    const auto adj = adjacency(m);
    const Dual_Graph<UL, double, int> g(n, m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, all_cells(n));
    std::vector<std::vector<UL>> nbs(n);
    for (size_t k = 0; k < n; ++k) nbs[k] = g.get_neighbours(k);
    const NeighbourhoodExtendedCreator<UL, double, int> ce{};
    const NeighbourhoodPureFrontCreator<UL, double, int> cp{};
    const u64 hm = hash_mesh(m);
    for (int pk = 0; pk < prios; ++pk) {
      const auto w = priorities(static_cast<int>(n), pk);
      for (u64 al : alloweds)
        for (UL seed = 0; seed < n; ++seed) {
          if (al >> seed & 1) continue;  // the seed is not among its neighbours
          std::unordered_set<UL> allowed;
          for (auto x : subset_of(al, n)) allowed.insert(x);
          for (int kind : {0, 2, 3}) {
            Ref r0;
            r0.kind = kind;
            r0.w = &w;
            r0.allowed.insert(allowed.begin(), allowed.end());
            auto make = [&]() -> std::shared_ptr<NB> { return kind ? cp.create(allowed, w, kind) : ce.create(allowed, w, m.dim); };
            auto copy = [&](std::shared_ptr<NB> o) -> std::shared_ptr<NB> { return kind ? cp.clone(o) : ce.clone(o); };
            auto name = [&](const std::vector<UL> &path) {
              return std::string(kind == 0 ? "extended" : kind == 2 ? "2D pure-front" : "3D pure-front") + " neighbourhood, allowed " + str(subset_of(al, n)) +
                     ", priorities " + str(w) + ", cells added " + str(path) + ": ";
            };
            std::vector<UL> path;
            auto hpath = [&] {
              u64 h = 7;
              for (auto y : path) h = mc::mix(h, y);
              return h;
            };
            auto same = [&](const NB &nb, const std::vector<UL> &exp, const char *what) {
              const auto &c = nb.get_candidates();
              if (std::vector<UL>(c.begin(), c.end()) != exp)
                ctx.fail(name(path) + what + " proposes " + str(std::vector<UL>(c.begin(), c.end())) + ", expected " + str(exp));
            };
            std::function<void(std::shared_ptr<NB>, const Ref &, UL)> dfs = [&](std::shared_ptr<NB> o, const Ref &before, UL x) {
              Ref r = before;
              r.add(x, std::set<UL>(adj[x].begin(), adj[x].end()));
              path.push_back(x);
              o->update(x, nbs[x]);
              ctx.count(c_st);
              ctx.trans();
              ctx.state(mc::mix(mc::mix(mc::mix(hm, al), (seed * 8 + pk) * 4 + kind), hpath()));
              same(*o, r.cand, "the neighbourhood");
              if (kind) {
                if (r.fronts.size() > static_cast<size_t>(kind) && r.fronts.back().empty() && !r.cand.empty()) ctx.count(c_old);
                const auto *pf = dynamic_cast<const PF *>(o.get());
                for (size_t l = 0; l < r.fronts.size(); ++l) {
                  std::set<UL> lv;
                  for (auto &pr : pf->get_neighbours_by_level(static_cast<int>(l))) lv.insert(pr.first);
                  if (lv != r.fronts[r.fronts.size() - 1 - l]) ctx.fail(name(path) + "front " + std::to_string(l) + " is " + str(lv) + ", expected " + str(r.fronts[r.fronts.size() - 1 - l]));
                }
              }
              // An object driven from scratch, without copies
              if (path.size() > 1) {
                if (kind == 0) {
                  Ext e(allowed, w);
                  for (auto y : path) e.update(y, nbs[y]);
                  same(e, r.cand, "a neighbourhood built afresh");
                } else {
                  PF e(allowed, w, kind);
                  for (auto y : path) e.update(y, nbs[y]);
                  same(e, r.cand, "a neighbourhood built afresh");
                }
              }
              if (static_cast<int>(path.size()) < depth)
                for (auto y : r.allowed)
                  if (!r.in.count(y)) {
                    auto c = copy(o);
                    ctx.count(c_cl);
                    dfs(c, r, y);
                    same(*o, r.cand, "after using a copy, the original");
                  }
              path.pop_back();
            };
            dfs(make(), r0, seed);
          }
        }
    }
    ctx.trace();
  };
  auto every0 = [](size_t n) {
    std::vector<u64> v;
    for (u64 s = 0; s < (u64{1} << n); ++s) v.push_back(s);
    return v;
  };
  for (int n = 2; n <= 4; ++n)
    add({"grow" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x 5 priority vectors x all allowed sets x all growth sequences x 3 kinds", n_graphs(n), [=](u64 i, Mesh &m, Config &) { m = small_graph(n, i, 0); }},
        [=](u64, const Mesh &m, mc::Ctx &ctx) { grow(m, every0(m.n()), 5, n, ctx); }, 2);
  add({"grow5", "all labelled graphs on 5 nodes x priority vectors x allowed sets x all growth sequences x 3 kinds", n_graphs(5), [=](u64 i, Mesh &m, Config &) { m = small_graph(5, i, 0); }},
      [=](u64, const Mesh &m, mc::Ctx &ctx) {
        std::vector<u64> al;
        for (int k = 0; k < 5; ++k) al.push_back(31 ^ (1 << k));
        grow(m, T ? every0(5) : al, T ? 5 : 2, 5, ctx);
      }, 4);
  add({"growgrids", "2x3, 2x4, 3x3 grids and a path of 7 x growth sequences up to 5 (6) cells with every other cell allowed", 4, [=](u64 i, Mesh &m, Config &) {
         u64 pth = 0;
         for (int a = 0, e = 0; a < 7; ++a)
           for (int b = a + 1; b < 7; ++b, ++e)
             if (b == a + 1) pth |= u64{1} << e;
         m = i == 0 ? grid(2, 3, 1, ~u64{0}, 0, 0, 0) : i == 1 ? grid(2, 4, 1, ~u64{0}, 0, 0, 0) : i == 2 ? grid(3, 3, 1, ~u64{0}, 0, 0, 0) : small_graph(7, pth, 0);
       }},
      [=](u64, const Mesh &m, mc::Ctx &ctx) {
        std::vector<u64> al;
        for (size_t k = 0; k < m.n(); ++k) al.push_back(((u64{1} << m.n()) - 1) ^ (u64{1} << k));
        grow(m, al, T ? 3 : 1, m.n() == 9 ? 4 + T : 5 + T, ctx);
      }, 1);
  // --- larger meshes
  {
    const Radix r{kScaleShapes, kScaleSizes.size(), 3, 4};
    add({"scale", std::string(kScaleWhat) + " x seeds first, middle, last or the first three x agglomerated none, every fifth, those next to the seed but one x orders 1..4, 7, 70 x at least 2, 5, 15, 70, 1000 cells", r.total(), [=](u64 i, Mesh &m, Config &) {
           const auto d = r.decode(i);
           m = scale_mesh(d[0], kScaleSizes[d[1]], 1);
         }},
        [=](u64 i, const Mesh &m, mc::Ctx &ctx) {
          const auto dd = r.decode(i);
          const UL n = m.n();
          const auto adj = adjacency(m);
          const Dual_Graph<UL, double, int> g(n, m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, {});
          std::unordered_set<UL> seeds{dd[3] == 1 ? n / 2 : dd[3] == 2 ? n - 1 : 0};
          if (dd[3] == 3)
            for (UL k = 1; k < 3 && k < n; ++k) seeds.insert(k);
          std::vector<bool> agg(n, false);
          const UL s0 = *seeds.begin();
          for (UL k = 0; k < n; ++k)
            if (dd[2] == 1) agg[k] = k % 5 == 4;
          if (dd[2] == 2)
            for (size_t k = 1; k < adj[s0].size(); ++k) agg[adj[s0][k]] = true;
          std::vector<int> dist(n, -1);
          std::vector<UL> now(seeds.begin(), seeds.end());
          std::vector<size_t> ring{now.size()};
          for (auto x : now) dist[x] = 0;
          while (!now.empty()) {
            std::vector<UL> next;
            for (auto x : now)
              for (auto y : adj[x])
                if (dist[y] < 0 && !agg[y]) {
                  dist[y] = static_cast<int>(ring.size());
                  next.push_back(y);
                }
            ring.push_back(next.size());
            now = next;
          }
          ctx.state(mc::mix(i, 4242));
          for (int order : {1, 2, 3, 4, 7, 70})
            for (int card : {2, 5, 15, 70, 1000}) {
              int lim = 0;
              size_t have = ring[0];
              for (int k = 1; k < static_cast<int>(ring.size()) && ring[k] && (k <= order || static_cast<int>(have) < card); ++k) {
                have += ring[k];
                lim = k;
              }
              std::map<UL, int> exp;
              for (UL k = 0; k < n; ++k)
                if (dist[k] > 0 && dist[k] <= lim) exp[k] = dist[k];
              int o = order;
              std::unordered_map<UL, int> got;
              g.compute_neighbourhood_of_cc(seeds, o, got, card, agg);
              ctx.trans();
              ctx.count(c_q);
              if (lim > order) ctx.count(c_ext);
              if (lim > 2) ctx.count(c_far);
              if (std::map<UL, int>(got.begin(), got.end()) != exp || o < lim)
                ctx.fail("neighbourhood within " + std::to_string(order) + " steps, at least " + std::to_string(card) + " cells: " + std::to_string(got.size()) + " cells instead of " + std::to_string(exp.size()) + " or wrong distances, order " + std::to_string(o));
            }
          ctx.trace();
        }, 16);
  }
  {
    std::vector<UL> sizes;
    for (auto n : kScaleSizes)
      if (n <= 130) sizes.push_back(n);
    const Radix r{kScaleShapes, sizes.size(), 5, 7, 3, 3};
    add({"growscale", "12 shapes of " + std::to_string(sizes.size()) + " sizes up to 130 cells x 5 priority patterns x 7 rules of growth (first, second, last or middle candidate, upwards, downwards, by strides) x seed first, middle or last x 3 kinds, each grown until nothing is left and copied half-way", r.total(), [=](u64 i, Mesh &m, Config &) {
           const auto d = r.decode(i);
           m = scale_mesh(d[0], sizes[d[1]], d[2] + 1);
         }},
        [=](u64 i, const Mesh &m, mc::Ctx &ctx) {
          const auto d = r.decode(i);
          const UL n = m.n();
          const auto adj = adjacency(m);
          const UL seed = d[4] == 0 ? 0 : d[4] == 1 ? n / 2 : n - 1;
          const int kind = d[5] == 0 ? 0 : static_cast<int>(d[5]) + 1;
          std::unordered_set<UL> allowed;
          for (UL k = 0; k < n; ++k)
            if (k != seed && (d[3] != 2 || k % 6 != 5)) allowed.insert(k);
          const NeighbourhoodExtendedCreator<UL, double, int> ce{};
          const NeighbourhoodPureFrontCreator<UL, double, int> cp{};
          std::shared_ptr<NB> o = kind ? cp.create(allowed, m.prio, kind) : ce.create(allowed, m.prio, m.dim);
          Ref ref;
          ref.kind = kind;
          ref.w = &m.prio;
          ref.allowed.insert(allowed.begin(), allowed.end());
          UL x = seed, pos = 0;
          for (size_t step = 1;; ++step) {
            o->update(x, adj[x]);
            ref.add(x, std::set<UL>(adj[x].begin(), adj[x].end()));
            ctx.trans();
            ctx.count(c_st);
            ctx.state(mc::mix(mc::mix(i, 515), step));
            if (kind && ref.fronts.size() > static_cast<size_t>(kind) && ref.fronts.back().empty() && !ref.cand.empty()) ctx.count(c_old);
            const auto &c = o->get_candidates();
            if (std::vector<UL>(c.begin(), c.end()) != ref.cand)
              return ctx.fail("step " + std::to_string(step) + ", cell " + std::to_string(x) + ": candidates " + str(std::vector<UL>(c.begin(), c.end())) + ", expected " + str(ref.cand));
            if (step == 1 + n / 2) {
              ctx.count(c_cl);
              o = kind ? cp.clone(o) : ce.clone(o);
            }
            std::vector<UL> rest;
            if (d[3] < 4) {
              if (ref.cand.empty()) break;
              x = d[3] == 0 ? ref.cand.front() : d[3] == 1 ? ref.cand[ref.cand.size() > 1] : d[3] == 2 ? ref.cand.back() : ref.cand[ref.cand.size() / 2];
              continue;
            }
            // in an order of the numbers, whether or not proposed
            while (pos < n) {
              x = d[3] == 4 ? pos : d[3] == 5 ? n - 1 - pos : pos * 5 % n;
              ++pos;
              if (allowed.count(x) && !ref.in.count(x)) break;
              x = n;
            }
            if (x == n || pos >= n) break;
          }
          ctx.trace();
        }, 16);
  }
  mc::Options opt;
  opt.property = "P21";
  opt.rule = "neighbourhoods and candidate lists equal those of the breadth-first and front reference models";
  opt.states_meaning = "distinct (graph, seeds, agglomerated cells) or (graph, allowed cells, growth path) situations";
  opt.transitions_meaning = "neighbourhood queries and growth steps compared";
  opt.traces_meaning = "graphs on which every query or growth sequence was replayed on the library";
  return mc::drive(argc, argv, opt, sp);
}
