// FLAGS: -I/usr/include/python3.12
// LIBS: -lpython3.12
// ALSO: @REPO@/src/CoMMA.cpp -O0 -fvisibility=hidden
// ALSO: p16_py.cpp -O0 -fvisibility=hidden
// TRY: p16_t.cpp -DP16_FN=run_t0 -DP16_I=unsigned -DP16_R=double -DP16_N=int
// TRY: p16_t.cpp -DP16_FN=run_t1 -DP16_I=long -DP16_R=double -DP16_N=long
// TRY: p16_t.cpp -DP16_FN=run_t2 -DP16_I=UL -DP16_R=LD -DP16_N=long
// TRY: p16_t.cpp -DP16_FN=run_t3 -DP16_I=int -DP16_R=float -DP16_N=int
#include "universe.hpp"
#include "p16.hpp"
using namespace vf;

#define HEAD m.row, m.col, m.w, m.vol, m.c, m.prio, g.compliant, m.nbnd, g.build, g.aniso, g.odd, g.athr, static_cast<CoMMASeedsPoolT>(g.seed), r.f2c, r.lidx, r.lines, g.corr, m.dim, g.goal, g.min, g.max
#define T1 static_cast<CoMMAAspectRatioT>(g.ar)
#define T4 static_cast<CoMMACellCouplingT>(g.coupling)
// The call with only the first k trailing arguments; the others must then have
// the documented default values
static Outcome truncated(const Mesh &m, const Config &g, int k) {
  return outcome([&] {
    Result r;
    r.lidx = g.lidx;
    r.lines = g.lines;
    switch (k) {
      case 0: agglomerate_one_level<UL, double, int>(HEAD); break;
      case 1: agglomerate_one_level<UL, double, int>(HEAD, T1); break;
      case 2: agglomerate_one_level<UL, double, int>(HEAD, T1, g.thresh); break;
      case 3: agglomerate_one_level<UL, double, int>(HEAD, T1, g.thresh, g.maxc); break;
      case 4: agglomerate_one_level<UL, double, int>(HEAD, T1, g.thresh, g.maxc, T4); break;
      case 5: agglomerate_one_level<UL, double, int>(HEAD, T1, g.thresh, g.maxc, T4, g.dir); break;
      default: agglomerate_one_level<UL, double, int>(HEAD, T1, g.thresh, g.maxc, T4, g.dir, g.fc_iter);
    }
    return r;
  });
}
static Config cut(Config g, int k) {
  const Config d;
  if (k < 1) g.ar = 0;
  if (k < 2) g.thresh = 1;
  if (k < 3) g.maxc.reset();
  if (k < 4) g.coupling = 0;
  if (k < 5) g.dir = true;
  if (k < 6) g.fc_iter = 1;
  if (k < 7) g.neigh = 0;
  return g;
}
static Outcome grouped(const Mesh &m, const Config &g, int ka, int kn) {
  return outcome([&] {
    Result r;
    r.lidx = g.lidx;
    r.lines = g.lines;
    using GA = GraphArgs<UL, double, int>;
    using AA = AgglomerationArgs<UL, double, int>;
    using AN = AnisotropicArgs<UL, double, int>;
    const GA ga(m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, m.dim);
    const auto sd = static_cast<CoMMASeedsPoolT>(g.seed);
    const auto ne = static_cast<CoMMANeighbourhoodT>(g.neigh);
    const AA aa = ka == 0   ? AA(g.goal, g.min, g.max, g.corr, sd)
                  : ka == 1 ? AA(g.goal, g.min, g.max, g.corr, sd, T1)
                  : ka == 2 ? AA(g.goal, g.min, g.max, g.corr, sd, T1, g.thresh)
                  : ka == 3 ? AA(g.goal, g.min, g.max, g.corr, sd, T1, g.thresh, g.fc_iter)
                            : AA(g.goal, g.min, g.max, g.corr, sd, T1, g.thresh, g.fc_iter, ne);
    const AN an = kn == 0   ? AN(g.aniso, g.compliant)
                  : kn == 1 ? AN(g.aniso, g.compliant, g.build)
                  : kn == 2 ? AN(g.aniso, g.compliant, g.build, g.odd)
                  : kn == 3 ? AN(g.aniso, g.compliant, g.build, g.odd, g.athr)
                  : kn == 4 ? AN(g.aniso, g.compliant, g.build, g.odd, g.athr, g.maxc)
                  : kn == 5 ? AN(g.aniso, g.compliant, g.build, g.odd, g.athr, g.maxc, T4)
                            : AN(g.aniso, g.compliant, g.build, g.odd, g.athr, g.maxc, T4, g.dir);
    agglomerate_one_level<UL, double, int>(ga, aa, an, r.f2c, r.lidx, r.lines);
    return r;
  });
}
static Config cut_grouped(Config g, int ka, int kn) {
  if (ka < 1) g.ar = 0;
  if (ka < 2) g.thresh = 1;
  if (ka < 3) g.fc_iter = 1;
  if (ka < 4) g.neigh = 0;
  if (kn < 1) g.build = true;
  if (kn < 2) g.odd = true;
  if (kn < 3) g.athr = 4.;
  if (kn < 4) g.maxc.reset();
  if (kn < 5) g.coupling = 0;
  if (kn < 6) g.dir = true;
  return g;
}

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_trunc = mc::counter("calls with defaulted trailing arguments"), c_grp = mc::counter("grouped-argument calls"),
            c_typ = mc::counter("calls with other types"), c_py = mc::counter("Python calls"), c_help = mc::counter("Python helper calls"), c_rej = mc::counter("rejected calls"), c_skip = mc::counter("calls skipped: types the library does not compile with");
  py_start();
  auto same = [=](const Outcome &a, const Outcome &b, const std::string &who, mc::Ctx &ctx) {
    if (b.skipped) {
      ctx.count(c_skip);
      return;
    }
    if (a.rejected != b.rejected) ctx.fail(who + (b.rejected ? " rejects what the full call accepts: " + b.why : " accepts what the full call rejects: " + a.why));
    if (a.rejected) return;
    if (a.r.f2c != b.r.f2c || a.r.lidx != b.r.lidx || a.r.lines != b.r.lines)
      ctx.fail(who + " gives " + show(b.r) + ", the full call gives " + show(a.r));
  };
  auto full = [](const Mesh &m, const Config &g) { return outcome([&] { return call(m, g); }); };
  std::vector<mc::Space> sp;
  // ---- argument forms
  auto forms = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const Outcome ref = full(m, g);
    if (ref.rejected) ctx.count(c_rej);
    same(ref, grouped(m, g, 4, 6), "grouped call", ctx);
    ctx.count(c_grp);
    for (int k = 0; k < 7; ++k) {
      const Config h = cut(g, k);
      same(full(m, h), truncated(m, h, k), "call with " + std::to_string(k) + " trailing arguments", ctx);
      ctx.count(c_trunc);
    }
    for (int ka = 0; ka <= 4; ++ka)
      for (int kn = 0; kn <= 6; ++kn) {
        if (ka != 4 && kn != 6 && ka != kn) continue;
        const Config h = cut_grouped(g, ka, kn);
        same(full(m, h), grouped(m, h, ka, kn), "grouped call with " + std::to_string(ka) + "," + std::to_string(kn) + " optional arguments", ctx);
        ctx.count(c_grp);
      }
    ctx.trans(22);
    ctx.trace();
    ctx.state(mc::hash_seq(mc::hash_seq(hash_mesh(m), ref.r.f2c), ref.r.lines));
  };
  // Every combination of two argument values around a base configuration
  const Radix r{3, 2, 4, 3, 2, 3, 2, 2, 2, 3};
  auto mk = [=](u64 i, Mesh &m, Config &g) {
    const auto d = r.decode(i);
    static const int ars[3] = {0, 4, 8}, its[3] = {1, 2, 5};
    static const double th[2] = {4., 0.5};
    m = d[0] == 0 ? grid(3, 5, 1, ~u64{0}, 1, 3, 0, true) : d[0] == 1 ? grid(2, 3, 2, ~u64{0}, 4, 4, 0) : grid(4, 3, 1, 0xDB7, 2, 2, 3);
    g.aniso = d[1];
    g.seed = kSeeds[d[2]];
    g.ar = ars[d[3]];
    g.corr = true;
    g.thresh = 1 + d[4];
    g.fc_iter = its[d[5]];
    g.neigh = d[6];
    g.odd = d[7];
    g.coupling = d[8];
    g.dir = d[8] == d[7];
    g.athr = th[d[6]];
    set_card(g, {4, 3, 5});
    g.build = d[9] != 2;
    g.compliant = all_cells(m.n());
    if (d[9] == 1) g.maxc = 3;
    if (d[9] == 2) {
      set_lines(g, d[0] == 2 ? std::vector<std::vector<UL>>{{0, 1, 2}, {5, 6}} : std::vector<std::vector<UL>>{{0, 3, 6, 9}, {1, 4, 7, 10, 11}});
      if (d[7]) g.maxc = 4;
    }
  };
  sp.push_back(as_space({"forms", "3 meshes x isotropic/anisotropic x 4 seed orderings x 3 aspect ratios x threshold {1,2} x look-ahead {1,2,5: rejected} x neighbourhood x odd x coupling x built/limited/provided lines, each through every argument form", r.total(), mk}, forms, 64));
  // Meshes on which every anisotropic option matters: strongest faces along bent
  // paths, nearest centres along others
  const Radix ra{3, 2, 2, 2, 2, 4, 4, 2};
  auto mka = [=](u64 i, Mesh &m, Config &g) {
    const auto d = ra.decode(i);
    static const double th[4] = {4., 0.5, -1., 1.5};
    m = d[0] == 2 ? grid(3, 2, 2, ~u64{0}, 0, 2, 0) : grid(4, 4, 1, ~u64{0}, 0, d[0] ? 3 : 2, 0, d[0] == 1);
    const std::vector<UL> path = d[0] == 2 ? std::vector<UL>{0, 1, 4, 10, 9, 6} : d[0] ? std::vector<UL>{3, 2, 6, 10, 11, 15} : std::vector<UL>{0, 1, 2, 6, 10, 9, 13};
    for (size_t k = 0; k + 1 < path.size(); ++k)
      for (const auto &[a, b] : {std::pair{path[k], path[k + 1]}, std::pair{path[k + 1], path[k]}})
        for (UL e = m.row[a]; e < m.row[a + 1]; ++e)
          if (m.col[e] == b) m.w[e] = 8.;
    for (UL k = 0; k < m.n(); ++k) {
      m.c[k][0] *= 1. / 16;
      m.c[k][1] += k % 3 == 0 ? 0.375 : 0.;
    }
    g.aniso = true;
    g.seed = kSeeds[d[1]];
    g.odd = d[2];
    g.coupling = d[3];
    g.dir = d[4];
    g.athr = th[d[5]];
    g.build = d[6] < 2;
    if (d[6] % 2) g.maxc = 3;
    if (!g.build) set_lines(g, {{path[0], path[1], path[2]}, {path[3], path[4], path[5]}});
    for (UL k = 0; k < m.n(); ++k)
      if (!d[7] || k % 4 != 1) g.compliant.push_back(k);
    g.ar = 4;
    g.corr = d[7];
    set_card(g, {4, 2, 5});
  };
  const int c_sens[4] = {mc::counter("anisotropic forms where the direction flag matters"), mc::counter("anisotropic forms where the coupling matters"), mc::counter("anisotropic forms where the threshold matters"), mc::counter("anisotropic forms where the odd flag matters")};
  auto aforms = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const Outcome ref = full(m, g);
    for (int k = 0; k < 4; ++k) {
      Config h = g;
      if (k == 0) h.dir = !h.dir;
      if (k == 1) h.coupling = 1 - h.coupling;
      if (k == 2) h.athr = h.athr == 4. ? -1. : 4.;
      if (k == 3) h.odd = !h.odd;
      const Outcome o = full(m, h);
      if (o.r.f2c != ref.r.f2c || o.r.lines != ref.r.lines) ctx.count(c_sens[k]);
    }
    forms(m, g, ctx);
  };
  const std::string awhat = "3 meshes with bent lines x 2 seed orderings x odd x coupling x direction x 4 thresholds x built/provided lines with and without limit x 2 compliant sets";
  sp.push_back(as_space({"anforms", awhat + ", each through every argument form", ra.total(), mka}, aforms, 32));
  // ---- types
  // Quantities without rounding in any type: diameters, and external weights unless a boundary
  // weight is estimated as a mean of 3, 5, 6... faces
  auto exact = [](const Mesh &m, const Config &g) {
    if (g.ar != 2 && g.ar != 6) return false;
    for (const auto *v : {&m.w, &m.prio, &m.vol})
      for (auto x : *v)
        if (static_cast<double>(static_cast<float>(x)) != x) return false;
    if (g.ar == 2) return true;
    for (UL i = 0; i < m.n(); ++i) {
      const UL k = m.row[i + 1] - m.row[i];
      if (m.nbnd[i] > 0 && (k & (k - 1))) return false;
    }
    return true;
  };
  auto types = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const Outcome ref = full(m, g);
    if (ref.rejected) ctx.count(c_rej);
    same(ref, run_t0(m, g), "<unsigned int,double,int>", ctx);
    same(ref, run_t1(m, g), "<long,double,long>", ctx);
    const bool ex = exact(m, g);
    if (ex) {
      same(ref, run_t2(m, g), "<unsigned long,long double,long>", ctx);
      same(ref, run_t3(m, g), "<int,float,int>", ctx);
    }
    ctx.count(c_typ, ex ? 4 : 2);
    ctx.trans(4);
    ctx.trace();
    ctx.state(mc::hash_seq(mc::hash_seq(hash_mesh(m), ref.r.f2c), ref.r.lines));
  };
  sp.push_back(as_space({"antypes", awhat + " with the other types", ra.total(), mka}, types, 64));
  sp.push_back(as_space({"typeforms", "the same configurations with the other types", r.total(), mk}, types, 64));
  {
    UOpt o;
    o.corr = {0, 1};
    for (auto &u : universe(o)) {
      u64 stride = T ? 1 : 7;
      if (u.size < 2000) stride = 1;
      auto make = u.make;
      Gen g{"t-" + u.name, u.what + (stride > 1 ? " (every 7th index)" : ""), (u.size + stride - 1) / stride, [make, stride](u64 i, Mesh &m, Config &c) { make(i * stride, m, c); }};
      // representable quantities: aspect ratios without rounding
      auto mk2 = g.make;
      g.make = [mk2](u64 i, Mesh &m, Config &c) {
        mk2(i, m, c);
        if (i % 2) c.ar = i % 4 == 1 ? 2 : 6;
      };
      sp.push_back(as_space(g, types, 1024));
    }
  }
  // ---- Python
  auto python = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const Outcome ref = full(m, g);
    if (ref.rejected) ctx.count(c_rej);
    same(ref, py_call(m, g, 0), "Python call with positional integers", ctx);
    same(ref, py_call(m, g, 1), "Python call with keywords and enumerators", ctx);
    ctx.count(c_py, 2);
    for (int k = 0; k < 7; ++k) {
      const Config h = cut(g, k);
      same(full(m, h), py_call(m, h, 10 + k), "Python call with " + std::to_string(k) + " trailing arguments", ctx);
      ctx.count(c_py);
    }
    if (!ref.rejected) {
      std::string why = py_helpers(m, ref.r);
      if (!why.empty()) ctx.fail(why);
      ctx.count(c_help, 3);
    }
    ctx.trans(9);
    ctx.trace();
    ctx.state(mc::hash_seq(mc::hash_seq(hash_mesh(m), ref.r.f2c), ref.r.lines) + 1);
  };
  sp.push_back(as_space({"anpython", awhat + " through the Python module", ra.total(), mka}, python, 16));
  sp.push_back(as_space({"python", "the same configurations through the Python module: positional, keyword/enumerator and defaulted forms; helper functions on the result", r.total(), mk}, python, 64));
  {
    const Radix q{kNAR, 4, 2, 2, 2};
    sp.push_back(as_space({"pyenums", "10 aspect ratios x 4 seed orderings x 2 neighbourhoods x 2 couplings x isotropic/anisotropic through the Python module", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             m = grid(4, 4, 1, 0xF7FF, d[4] ? 1 : 2, 3, 0);
                             g.ar = d[0];
                             g.seed = kSeeds[d[1]];
                             g.neigh = d[2];
                             g.coupling = d[3];
                             g.aniso = d[4];
                             g.compliant = all_cells(m.n());
                             set_card(g, {4, 2, 5});
                           }}, python, 64));
  }
  {
    // settings beyond those of ordinary meshes, on a path, a comb and a grid of 40 cells
    const Radix q{3, 8, 7, 4, 2, 2};
    sp.push_back(as_space({"pyvalues", "3 meshes of 40 cells x 8 cardinality triples up to 40 x thresholds {1,2,4,5,8,17,1000} x look-ahead 1..4 x limit of line cells none/9 x isotropic/anisotropic through the Python module", q.total(), [=](u64 i, Mesh &m, Config &g) {
                             const auto d = q.decode(i);
                             static const Card cs[8] = {{2, 2, 2}, {3, 2, 4}, {5, 4, 6}, {6, 6, 9}, {8, 8, 8}, {10, 9, 16}, {17, 5, 20}, {40, 20, 40}};
                             static const int th[7] = {1, 2, 4, 5, 8, 17, 1000};
                             m = d[0] == 0 ? grid(40, 1, 1, ~u64{0}, 2, 3, 0) : d[0] == 1 ? grid(2, 20, 1, 0x7777777777, 1, 2, 3) : grid(5, 4, 2, ~u64{0}, 4, 4, 0);
                             set_card(g, cs[d[1]]);
                             g.thresh = th[d[2]];
                             g.fc_iter = d[3] + 1;
                             if (d[4]) g.maxc = 9;
                             g.aniso = d[5];
                             g.athr = 1.5;
                             g.corr = true;
                             g.seed = kSeeds[(d[1] + d[2]) % 4];
                             g.compliant = all_cells(m.n());
                           }}, python, 32));
  }
  mc::Options opt;
  opt.property = "P16";
  opt.rule = "every form of the call gives the result (or rejection) of the call with all arguments spelled out, instantiated for <unsigned long,double,int>";
  opt.states_meaning = "distinct (mesh, result) pairs";
  opt.transitions_meaning = "calls through another entry point or type";
  opt.traces_meaning = "configurations compared over all forms";
  opt.assumptions = {"wider and narrower floating types are compared only for the aspect ratios whose values are exact on the dyadic meshes"};
  return mc::drive(argc, argv, opt, sp);
}
