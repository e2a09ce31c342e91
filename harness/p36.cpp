// P36: settings act only on the part of the call they are about.
#include "universe.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const std::vector<std::string> names{
    "isotropic: other anisotropic settings, given lines", "isotropic: all cells compliant, lines to build", "singular threshold without correction 2", "singular threshold without correction 7",
    "lines: seed ordering", "lines: next seed ordering", "lines: boundary-first or not", "lines: larger cardinalities", "lines: smallest cardinalities", "lines: aspect ratio", "lines: neighbourhood", "lines: look-ahead", "lines: correction",
    "provided lines: threshold", "provided lines: compliant cells", "provided lines: coupling and direction", "no line: isotropic call", "built lines: given lines",
    "isotropic: build flag with an unusable index"};
  const int kT = static_cast<int>(names.size());
  std::vector<int> cn;
  for (const auto &s : names) cn.push_back(mc::counter("pairs: " + s));
  const int c_skip = mc::counter("setting acts on this call"), c_lines = mc::counter("pairs with exported lines");
  auto f = [=](const Mesh &m, const Config &g, const Result &r, int t, mc::Ctx &ctx) {
    Config q = g;
    bool app = true, only_lines = t >= 4 && t <= 12;
    const bool ani = g.aniso && (g.build || (g.lidx.size() > 1 && !g.lines.empty()));
    auto some_lines = [&] {
      q.lidx = {0, 1};
      q.lines = {0};
      if (m.n() > 2) {
        q.lidx = {0, 2, 3};
        q.lines = {2, 0, 1};
      }
    };
    auto many_lines = [&] {
      q.lidx = {0};
      q.lines.clear();
      for (UL k = 0; k < 150; ++k) {
        q.lines.push_back(k % m.n());
        if (k % 3 == 1) q.lidx.push_back(q.lines.size());
      }
    };
    switch (t) {
      case 0:
        app = !g.aniso;
        q.build = !g.build;
        q.odd = !g.odd;
        q.athr = g.athr + 3;
        q.maxc = 2;
        q.coupling = 1 - g.coupling;
        q.dir = !g.dir;
        some_lines();
        break;
      case 1:
        app = !g.aniso;
        q.build = true;
        q.athr = -1.;
        q.compliant = all_cells(m.n());
        many_lines();
        break;
      case 2: case 3:
        app = !g.corr;
        q.thresh = t == 2 ? 2 : 7;
        break;
      case 4: case 5: case 6:
        app = ani;
        q.seed = kSeeds[(static_cast<size_t>(std::find(kSeeds, kSeeds + 4, g.seed) - kSeeds) + static_cast<size_t>(t - 3)) % 4];
        break;
      case 7: case 8:
        app = ani;
        set_card(q, t == 7 ? Card{g.goal + 2, g.min + 1, g.max + 3} : Card{2, 2, 2});
        if (t == 8) q.corr = false;
        break;
      case 9:
        app = ani;
        q.ar = (g.ar + 4) % kNAR;
        break;
      case 10:
        app = ani;
        q.neigh = 1 - g.neigh;
        break;
      case 11:
        app = ani;
        q.fc_iter = g.fc_iter % 4 + 1;
        break;
      case 12:
        app = ani;
        q.corr = !g.corr;
        break;
      case 13:
        app = ani && !g.build;
        q.athr = g.athr > 2 ? -1. : 1e6;
        break;
      case 14:
        app = ani && !g.build;
        q.compliant = g.compliant.empty() ? all_cells(m.n()) : std::vector<UL>{};
        break;
      case 15:
        app = ani && !g.build;
        q.coupling = 1 - g.coupling;
        q.dir = !g.dir;
        break;
      case 16:
        app = g.aniso;
        q.aniso = false;
        break;
      case 17:
        app = g.aniso && g.build;
        if (m.n() % 2)
          many_lines();
        else
          some_lines();
        break;
      default:
        app = !g.aniso;
        q.build = false;
        if (m.n() % 2) {
          many_lines();
          q.lidx.pop_back();
        } else {
          q.lidx = {0, 5};
          q.lines = {};
        }
    }
    if (!app) {
      ctx.count(c_skip);
      return;
    }
    if (t == 16 && !r.lines.empty() && ani) {
      ctx.count(c_skip);
      return;
    }
    const auto s = call(m, q);
    ctx.trace();
    ctx.count(cn[static_cast<size_t>(t)]);
    auto bad = [&](const std::string &w) { ctx.fail(names[static_cast<size_t>(t)] + " " + w + ": " + show(r) + " becomes " + show(s)); };
    if (!g.aniso && (r.lidx != g.lidx || r.lines != g.lines || s.lidx != q.lidx || s.lines != q.lines)) bad("changes the given lines");
    if (only_lines) {
      const UL na = n_aniso(g, r);
      if (na) ctx.count(c_lines);
      bool same = r.lidx == s.lidx && r.lines == s.lines && s.f2c.size() == m.n();
      for (UL i = 0; i < m.n() && same; ++i) same = r.f2c[i] < na || s.f2c[i] < na ? r.f2c[i] == s.f2c[i] : true;
      if (!same) bad("changes the lines");
      return;
    }
    if (r.f2c != s.f2c) bad("changes the coarse cells");
    if (ani && q.aniso && (r.lidx != s.lidx || r.lines != s.lines)) bad("changes the lines");
  };
  UOpt o;
  o.thorough = T;
  o.dev = 2;
  o.corr = T ? std::vector<int>{0, 2} : std::vector<int>{0};
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o)) {
    // Transformations that can apply to the family
    std::vector<int> ts;
    const bool iso = u.name.rfind("an", 0) && u.name.rfind("line", 0), given = !u.name.rfind("line", 0);
    for (int t = 0; t < kT; ++t)
      if (iso ? t < 4 || t >= 18 : (t >= 2 && t <= 12) || t == 16 || (given ? t >= 13 && t <= 15 : t == 17)) ts.push_back(t);
    const u64 k = ts.size();
    mc::Space s;
    s.name = u.name;
    s.what = u.what + " x " + std::to_string(k) + " changes of settings";
    s.size = u.size;
    auto make = u.make;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      Config g;
      make(i, m, g);
      const auto r = call(m, g);
      cover(ctx, m, r, groups(m, r));
      ctx.trace();
      for (int t : ts) f(m, g, r, t, ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      Config g;
      make(i, m, g);
      return describe(m, g);
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P36";
  opt.rule = "a call with settings changed that do not apply to it gives the same result";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs compared with the one under the unchanged settings";
  return mc::drive(argc, argv, opt, sp);
}
