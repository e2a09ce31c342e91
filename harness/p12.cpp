#include "universe.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_ok = mc::counter("accepted calls"), c_no = mc::counter("rejected calls");
  auto valid = [](const Mesh &m, const Config &g) {
    if (m.dim != 2 && m.dim != 3) return false;
    if (g.goal <= 1 || g.min <= 1 || g.max <= 1 || g.min > g.goal || g.goal > g.max) return false;
    if (g.fc_iter < 1 || g.fc_iter > 4) return false;
    if (g.thresh <= 0) return false;
    if (m.row.empty() || m.row.back() != m.col.size() || m.row.back() != m.w.size()) return false;
    if (g.aniso && !g.build && g.lidx.size() >= 2 && !g.lines.empty() && g.lidx.back() != g.lines.size()) return false;
    if (g.seed != 0 && g.seed != 1 && g.seed != 10 && g.seed != 11) return false;
    return g.ar >= 0 && g.ar <= 9;
  };
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const bool want = valid(m, g);
    bool ok = true;
    std::string why;
    Result r;
    try {
      r = call(m, g);
    } catch (const std::invalid_argument &e) {
      ok = false;
      why = e.what();
    }
    // any other exception is reported by the driver
    ctx.count(ok ? c_ok : c_no);
    ctx.trans();
    ctx.trace();
    u64 h = mc::hash_seq(7, std::vector<int>{m.dim, g.goal, g.min, g.max, g.fc_iter, g.thresh, g.seed, g.ar, g.neigh, g.coupling, g.corr, g.aniso, g.build, g.maxc.value_or(-77)});
    h = mc::hash_seq(h, std::vector<u64>{m.row.size(), m.row.empty() ? 99 : m.row.back(), m.col.size(), m.w.size(), g.lidx.size(), g.lidx.empty() ? 99 : g.lidx.back(), g.lines.size()});
    ctx.state(h);
    if (ok && !want) ctx.fail("invalid arguments accepted; " + show(r));
    if (!ok && want) ctx.fail("valid arguments rejected: " + why);
    if (ok) groups(m, r);
  };
  auto mesh_for = [](int dim, int k) {
    Mesh m = k == 0 ? grid(3, 2, 1, ~u64{0}, 0, 0, 0, true, dim == 3) : grid(4, 1, 1, 0xB, 0, 3, 0, true, dim == 3);
    m.dim = dim;
    return m;
  };
  std::vector<mc::Space> sp;
  {
    const Radix r{7, 7, 7, 7, 7, 6, 2, 2, 2};
    sp.push_back(as_space({"scalars", "dimension in -1..5 x goal, min, max in -1..5 x look-ahead in -1..5 x singular threshold {-1,0,1,2,3,9} x known/unknown seed ordering x known/unknown aspect ratio x correction", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int th[6] = {-1, 0, 1, 2, 3, 9};
                             m = mesh_for(d[0] - 1, (d[1] + d[4]) % 2);
                             g.goal = d[1] - 1;
                             g.min = d[2] - 1;
                             g.max = d[3] - 1;
                             g.fc_iter = d[4] - 1;
                             g.thresh = th[d[5]];
                             g.seed = d[6] ? 2 : kSeeds[(d[1] + d[2] + d[5]) % 4];
                             g.ar = d[7] ? 10 : (d[2] + d[3] + d[4]) % kNAR;
                             g.corr = d[8];
                           }}, f));
  }
  {
    const Radix r{4, 18, 16, 5, 5, 3, 2};
    sp.push_back(as_space({"enums", "dimension 1..4 x seed ordering in -2..15 x aspect ratio in -3..12 x neighbourhood {-1,0,1,2,7} x coupling {-1,0,1,2,9} x isotropic/built lines/provided lines x valid/invalid cardinalities", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int ne[5] = {-1, 0, 1, 2, 7}, co[5] = {-1, 0, 1, 2, 9};
                             m = mesh_for(d[0] + 1, 0);
                             g.seed = d[1] - 2;
                             g.ar = d[2] - 3;
                             g.neigh = ne[d[3]];
                             g.coupling = co[d[4]];
                             g.aniso = d[5] > 0;
                             g.build = d[5] == 1;
                             if (d[5] == 1) g.compliant = all_cells(m.n());
                             g.athr = 0.5;
                             if (d[5] == 2) set_lines(g, {{0, 1, 2}});
                             set_card(g, d[6] ? Card{2, 3, 4} : Card{2, 2, 3});
                           }}, f));
  }
  {
    // sizes of row pointers, neighbours and weights around the consistent ones
    const Radix r{5, 6, 6, 2, 3, 2};
    sp.push_back(as_space({"sizes", "last row pointer, number of neighbours and number of weights each off by -2..+2 or empty x empty row pointers x isotropic/built/provided lines x valid/invalid threshold", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = mesh_for(2, 0);
                             // trailing self entries of the last cell keep every size meaningful
                             const size_t e = m.col.size();
                             const UL last = m.n() - 1;
                             m.col.resize(e + 4, last);
                             m.w.resize(e + 4, 1.);
                             const size_t base = e + 2;
                             m.row.back() = base + static_cast<size_t>(d[0]) - 2;
                             m.col.resize(d[1] == 5 ? 0 : base + static_cast<size_t>(d[1]) - 2);
                             m.w.resize(d[2] == 5 ? 0 : base + static_cast<size_t>(d[2]) - 2);
                             if (d[3]) m.row.clear();
                             g.aniso = d[4] > 0;
                             g.build = d[4] == 1;
                             if (d[4] == 1) g.compliant = all_cells(m.n());
                             if (d[4] == 2) set_lines(g, {{0, 1, 2}});
                             g.thresh = d[5] ? 0 : 1;
                           }}, f));
  }
  {
    const Radix r{5, 7, 7, 2, 2, 5, 2};
    sp.push_back(as_space({"lines", "provided lines: 0..4 index entries, last one in 0..6, 0..6 line cells x anisotropic or not x built or provided x limit {none,-1,0,1,2} x odd flag", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = grid(6, 1, 1, ~u64{0}, 1, 0, 0);
                             g.lidx.clear();
                             for (int k = 0; k < d[0]; ++k) g.lidx.push_back(k == 0 && d[0] > 1 ? 0 : k + 1 == d[0] ? d[1] : static_cast<UL>(d[1]) * static_cast<UL>(k) / static_cast<UL>(d[0] - 1));
                             g.lines.clear();
                             for (int k = 0; k < d[2]; ++k) g.lines.push_back(k);
                             g.aniso = d[3];
                             g.build = d[4];
                             if (g.build) g.compliant = all_cells(m.n());
                             static const int mx[5] = {-99, -1, 0, 1, 2};
                             if (d[5]) g.maxc = mx[d[5]];
                             g.odd = d[6];
                           }}, f));
  }
  {
    // Large values: nothing else is a limit
    const Radix r{5, 5, 5, 4, 4};
    sp.push_back(as_space({"large", "cardinalities from {2,3,100,30000,2^31-1} each x look-ahead 1..4 x threshold {1,2,1000,2^31-1}", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             static const int v[5] = {2, 3, 100, 30000, 2147483647}, th[4] = {1, 2, 1000, 2147483647};
                             m = mesh_for(2 + d[0] % 2, d[1] % 2);
                             g.goal = v[d[0]];
                             g.min = v[d[1]];
                             g.max = v[d[2]];
                             g.fc_iter = d[3] + 1;
                             g.thresh = th[d[4]];
                             g.corr = true;
                           }}, f));
  }
  {
    // Values far out of range, one or two at a time
    static const int far[10] = {-2147483647 - 1, -2147483647, -65536, -32768, -1000, -129, -101, -7, 1000, 2147483647};
    const Radix r{9, 11, 9, 11, 2};
    sp.push_back(as_space({"far", "every pair of the integer settings (dimension, goal, min, max, look-ahead, threshold, seed ordering, aspect ratio, limit of line cells) at -2^31, -2^31+1, -65536, -32768, -1000, -129, -101, -7, 1000, 2^31-1 or left alone x isotropic/anisotropic", r.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(i);
                             m = mesh_for(2, 0);
                             g.corr = true;
                             g.aniso = d[4];
                             g.compliant = all_cells(m.n());
                             g.athr = 0.5;
                             set_card(g, {2, 2, 3});
                             auto set = [&](int what, int v) {
                               switch (what) {
                                 case 0: m.dim = v; break;
                                 case 1: g.goal = v; break;
                                 case 2: g.min = v; break;
                                 case 3: g.max = v; break;
                                 case 4: g.fc_iter = v; break;
                                 case 5: g.thresh = v; break;
                                 case 6: g.seed = v; break;
                                 case 7: g.ar = v; break;
                                 default: g.maxc = v;
                               }
                             };
                             if (d[1] < 10) set(d[0], far[d[1]]);
                             if (d[3] < 10) set(d[2], far[d[3]]);
                           }}, f));
  }
  (void)T;
  mc::Options opt;
  opt.property = "P12";
  opt.rule = "std::invalid_argument is thrown exactly when the predicate of the statement says so";
  opt.states_meaning = "distinct argument combinations";
  opt.transitions_meaning = "calls";
  opt.traces_meaning = "calls whose acceptance was compared with the predicate";
  return mc::drive(argc, argv, opt, sp);
}
