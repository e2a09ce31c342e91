#include "growth.hpp"
#include "universe.hpp"
using namespace vf;

struct Level {
  Card card;
  int seed, ar, neigh, fc_iter, corr;
  bool odd, aniso;
};

static std::vector<Level> alphabet() {
  return {
    {{2, 2, 2}, 0, 0, 0, 1, 0, true, true},   {{4, 2, 4}, 1, 1, 1, 1, 1, true, true},  {{4, 4, 4}, 10, 5, 0, 1, 0, false, true},
    {{3, 2, 4}, 11, 2, 0, 2, 1, false, true}, {{4, 3, 6}, 0, 7, 1, 1, 2, true, true},  {{2, 2, 3}, 1, 8, 0, 1, 1, false, true},
    {{3, 3, 3}, 11, 4, 1, 1, 0, true, true},  {{8, 6, 10}, 0, 0, 0, 1, 1, true, true}, {{4, 2, 4}, 0, 0, 0, 1, 1, true, false},
    {{2, 2, 2}, 11, 6, 1, 1, 0, true, false},
  };
}

static constexpr int kWide = 10, kStarts = 17;  // those from the 10th on are large
static Mesh start(int k) {
  switch (k) {
    case 0: return grid(4, 8, 1, ~u64{0}, 1, 0, 0);
    case 1: return grid(3, 7, 1, ~u64{0}, 4, 3, 0);
    case 2: return grid(8, 3, 1, ~u64{0}, 2, 2, 0, true);
    case 3: return grid(2, 2, 7, ~u64{0}, 2, 1, 0);
    case 4: return grid(1, 11, 1, ~u64{0}, 1, 6, 0);
    case 5: return grid(4, 5, 1, 0xF6DFFULL, 1, 5, 3);
    case 6: return grid(3, 9, 1, ~u64{0}, 1, 3, 1);
    case 7: return grid(5, 5, 1, ~u64{0}, 0, 0, 0);
    case 8: return grid(2, 16, 1, ~u64{0}, 1, 2, 0);
    case 10: return grid(30, 3, 1, ~u64{0}, 1, 3, 0);
    case 11: return grid(3, 30, 1, ~u64{0}, 2, 0, 0);
    case 12: return grid(12, 17, 1, ~u64{0}, 1, 2, 0);
    case 13: return grid(4, 4, 9, ~u64{0}, 1, 0, 0);
    case 14: return grid(5, 5, 6, ~u64{0}, 2, 3, 0);
    case 15: return grid(1, 150, 1, ~u64{0}, 1, 6, 0);
    case 16: return grid(70, 5, 1, ~u64{0}, 1, 0, 0);
    default: return grid(2, 3, 5, ~u64{0}, 1, 0, 0);
  }
}

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_levels = mc::counter("levels computed"), c_lines = mc::counter("lines followed to the next level"), c_gone = mc::counter("lines that came to an end"),
            c_coarsest = mc::counter("histories run to a single coarse cell or no further coarsening");
  const auto al = alphabet();
  const int A = static_cast<int>(al.size()), L = T ? 5 : 4;
  u64 seqs = 1;
  for (int i = 0; i < L; ++i) seqs *= A;
  auto run = [=](const Mesh &fine, const std::vector<int> &hist, int lines_mode, mc::Ctx *ctx) {
    std::string log;
    Mesh m = fine;
    std::vector<UL> lidx, lines, comp = all_cells(fine.n());
    const auto fine_adj = adjacency(fine);
    double vol0 = 0;
    for (auto v : fine.vol) vol0 += v;
    u64 h = hash_mesh(fine);
    bool with_lines = false;
    for (size_t lev = 0; lev < hist.size() + 8; ++lev) {
      const Level &l = al[hist[std::min(lev, hist.size() - 1)]];
      Config g;
      set_card(g, l.card);
      g.seed = l.seed;
      g.ar = l.ar;
      g.neigh = l.neigh;
      g.fc_iter = l.fc_iter;
      set_corr(g, l.corr);
      g.odd = l.odd;
      g.athr = 2.;
      g.aniso = l.aniso && (lev == 0 || with_lines);
      g.build = lev == 0;
      g.dir = lines_mode;
      if (g.aniso && lev == 0) g.compliant = all_cells(m.n());
      if (g.aniso && lev > 0) {
        g.lidx = lidx;
        g.lines = lines;
      }
      auto bad = [&](const std::string &s) { ctx->fail("level " + std::to_string(lev) + ": " + s); };
      const auto r = call(m, g);
      const auto gr = groups(m, r);
      const auto adj = adjacency(m);
      for (size_t k = 0; k < gr.size(); ++k)
        if (!connected(adj, gr[k])) bad("coarse cell " + std::to_string(k) + " is not connected; " + show(r));
      ctx->count(c_levels);
      Mesh o;
      o.dim = m.dim;
      build_coarse_graph<UL, double, int>(r.f2c, m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, o.row, o.col, o.w, o.vol, o.c, o.prio, o.nbnd);
      if (o.n() != gr.size()) bad("coarse graph of the wrong size");
      double v = 0;
      for (auto x : o.vol) v += x;
      if (!near(v, vol0)) bad("total volume " + std::to_string(v) + " instead of " + std::to_string(vol0));
      // composed map
      std::vector<std::vector<UL>> pieces(gr.size());
      for (UL i = 0; i < comp.size(); ++i) {
        comp[i] = r.f2c[comp[i]];
        pieces[comp[i]].push_back(i);
      }
      for (const auto &p : pieces)
        if (!connected(fine_adj, p)) bad("composed coarse cell is empty or not connected");
      // lines
      const auto oadj = adjacency(o);
      if (g.aniso) {
        const bool usable_before = lev == 0 || (lidx.size() > 1 && !lines.empty());
        if (lev > 0 && usable_before) {
          std::vector<size_t> want;
          for (size_t q = 0; q + 1 < lidx.size(); ++q) {
            const size_t len = lidx[q + 1] - lidx[q];
            if (len >= 2) {
              want.push_back(len / 2);
              ctx->count(c_lines);
            } else {
              ctx->count(c_gone);
            }
          }
          std::vector<size_t> got;
          for (size_t q = 0; q + 1 < r.lidx.size(); ++q) got.push_back(r.lidx[q + 1] - r.lidx[q]);
          if (got != want) bad("line lengths " + str(got) + " instead of " + str(want));
        }
        if (usable_before) {
          lidx = r.lidx;
          lines = r.lines;
        }
        std::set<UL> seen;
        for (size_t q = 0; q + 1 < lidx.size(); ++q)
          for (UL e = lidx[q]; e < lidx[q + 1]; ++e) {
            if (lines.at(e) >= o.n() && usable_before) bad("line names an unknown coarse cell");
            if (usable_before && !seen.insert(lines[e]).second) bad("coarse cell in two lines");
            if (usable_before && e > lidx[q] && std::find(oadj[lines[e]].begin(), oadj[lines[e]].end(), lines[e - 1]) == oadj[lines[e]].end()) bad("consecutive cells of a line do not touch");
          }
        with_lines = usable_before && !lines.empty();
      } else {
        with_lines = false;
        lidx.clear();
        lines.clear();
      }
      h = mc::mix(h, static_cast<u64>(hist[std::min(lev, hist.size() - 1)]));
      ctx->state(h);
      ctx->trans();
      if (o.n() == m.n() || o.n() == 1) {
        ctx->count(c_coarsest);
        break;
      }
      m = o;
    }
    ctx->trace();
  };
  const Radix r{10, seqs, 2};
  mc::Space s;
  s.name = "histories";
  s.what = "10 start meshes x all sequences of " + std::to_string(L) + " per-level configurations over an alphabet of " + std::to_string(A) + ", last one repeated to the coarsest level, x line direction kept or not";
  s.size = r.total();
  s.chunk = 64;
  auto decode = [=](u64 i) {
    const auto d = r.decode(i);
    std::vector<int> hist;
    u64 q = static_cast<u64>(d[1]);
    for (int k = 0; k < L; ++k) {
      hist.push_back(static_cast<int>(q % A));
      q /= A;
    }
    return hist;
  };
  s.run = [=](u64 i, mc::Ctx &ctx) {
    const auto d = r.decode(i);
    run(start(d[0]), decode(i), d[2], &ctx);
  };
  s.describe = [=](u64 i) {
    const auto d = r.decode(i);
    return "mesh " + std::to_string(d[0]) + ", configurations per level " + str(decode(i)) + " (see alphabet() in p10.cpp), keep direction " + std::to_string(d[2]) + "; " + describe(start(d[0]), Config{});
  };
  const Radix rl{static_cast<u64>(kStarts - kWide), static_cast<u64>(A) * A * (T ? A : 1), 2};
  mc::Space wide;
  wide.name = "large";
  wide.what = "7 start meshes of up to 350 cells (up to 70 lines, or lines of up to 150 cells) x all sequences of " + std::to_string(T ? 3 : 2) + " of the configurations, last one repeated to the coarsest level, x line direction kept or not";
  wide.size = rl.total();
  wide.chunk = 4;
  auto decode_large = [=](u64 i) {
    u64 q = static_cast<u64>(rl.decode(i)[1]);
    std::vector<int> hist;
    for (int k = 0; k < (T ? 3 : 2); ++k) {
      hist.push_back(static_cast<int>(q % A));
      q /= A;
    }
    return hist;
  };
  wide.run = [=](u64 i, mc::Ctx &ctx) {
    const auto d = rl.decode(i);
    run(start(kWide + d[0]), decode_large(i), d[2], &ctx);
  };
  wide.describe = [=](u64 i) {
    const auto d = rl.decode(i);
    return "mesh " + std::to_string(kWide + d[0]) + ", configurations per level " + str(decode_large(i)) + " (see alphabet() in p10.cpp), keep direction " + std::to_string(d[2]) + "; " + describe(start(kWide + d[0]), Config{});
  };
  mc::Options opt;
  opt.property = "P10";
  opt.rule = "per level: connected partition, total volume, line lengths; composed: connected partition of the finest cells";
  opt.states_meaning = "distinct (start mesh, history of per-level configurations)";
  opt.transitions_meaning = "levels computed (agglomeration plus coarse graph)";
  opt.traces_meaning = "complete multi-level histories run on the implementation and judged";
  return mc::drive(argc, argv, opt, {s, wide});
}
