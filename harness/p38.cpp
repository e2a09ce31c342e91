// P38: overridden settings are reported, other calls are silent.
#include <iostream>
#include "universe.hpp"
using namespace vf;

namespace {
// Counts what is written
struct Sink : std::streambuf {
  size_t n = 0;
  int overflow(int c) override {
    if (c != EOF) ++n;
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char *, std::streamsize k) override {
    n += static_cast<size_t>(k);
    return k;
  }
};
}  // namespace

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const std::vector<std::string> names{"as it is", "singular threshold at the minimum", "singular threshold above the minimum", "limit 0", "unknown coupling", "no compliant cell", "no lines given", "index without lines", "threshold nobody reaches", "lines cut to one cell", "everything anisotropic switched off"};
  std::vector<int> cn;
  for (const auto &s : names) cn.push_back(mc::counter("calls: " + s));
  const int c_rep = mc::counter("calls that report"), c_sil = mc::counter("silent calls");
  auto f = [=](const Mesh &m, const Config &g, int t, mc::Ctx &ctx) {
    Config q = g;
    switch (t) {
      case 0: break;
      case 1: q.thresh = g.min; break;
      case 2: {
        static const int above[5] = {3, 30, 300, 100000, 2000000000};
        q.thresh = g.min + above[hash_mesh(m) % 5];
        break;
      }
      case 3: q.maxc = 0; break;
      case 4: q.coupling = 7; break;
      case 5: q.compliant.clear(); break;
      case 6: q.lidx.clear(); q.lines.clear(); break;
      case 7: q.lidx = {0, 2}; q.lines.clear(); break;
      case 8: q.athr = 1e9; break;
      case 9: q.lidx = {0, 1}; q.lines = {0}; break;
      default: q.aniso = false; break;
    }
    // A null limit is only dropped for built lines
    if (g.aniso && !g.build && t == 3) return;
    bool want = q.thresh >= q.min;
    if (q.aniso && q.build) {
      want = want || q.compliant.empty() || (q.maxc && *q.maxc == 0) || q.coupling < 0 || q.coupling > 1;
      if (!want) {
        // No line at all, whatever the limit
        Config u = q;
        u.maxc.reset();
        want = call(m, u).lines.empty();
        ctx.trace();
      }
    }
    if (q.aniso && !q.build) {
      bool usable = false;
      for (size_t l = 0; l + 1 < q.lidx.size() && !q.lines.empty(); ++l) usable = usable || q.lidx[l + 1] - q.lidx[l] > 1;
      want = want || !usable;
    }
    Sink s;
    std::vector<std::pair<std::ostream *, std::streambuf *>> old;
    for (auto *o : {&std::cout, &std::cerr, &std::clog}) old.emplace_back(o, o->rdbuf(&s));
    // Messages may also go through C streams
    static char *text = nullptr;
    static size_t length = 0;
    static FILE *mem = open_memstream(&text, &length);
    FILE *const out = stdout, *const err = stderr;
    stdout = stderr = mem;
    const auto restore = [&] {
      for (auto &[o, b] : old) o->rdbuf(b);
      stdout = out;
      stderr = err;
      fflush(mem);
      if (const long k = ftell(mem); k > 0) {
        s.n += static_cast<size_t>(k);
        rewind(mem);
      }
    };
    Result r;
    try {
      r = call(m, q);
    } catch (...) {
      restore();
      throw;
    }
    restore();
    cover(ctx, m, r, groups(m, r));
    ctx.trace();
    ctx.count(cn[static_cast<size_t>(t)]);
    ctx.count(want ? c_rep : c_sil);
    if (want && !s.n) ctx.fail("nothing is reported (" + names[static_cast<size_t>(t)] + "); " + show(r));
    if (!want && s.n) ctx.fail(std::to_string(s.n) + " characters are written without reason (" + names[static_cast<size_t>(t)] + "); " + show(r));
  };
  UOpt o;
  o.thorough = T;
  o.dev = 2;
  o.corr = {0};
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o)) {
    const bool iso = u.name.rfind("an", 0) && u.name.rfind("line", 0), given = !u.name.rfind("line", 0);
    const std::vector<int> ts = iso ? std::vector<int>{0, 1, 2} : given ? std::vector<int>{0, 1, 6, 7, 9, 10} : std::vector<int>{0, 2, 3, 4, 5, 8, 10};
    auto make = u.make;
    mc::Space s;
    s.name = u.name;
    s.what = u.what + " x " + std::to_string(ts.size()) + " settings";
    s.size = u.size;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      Config g;
      make(i, m, g);
      for (int t : ts) f(m, g, t, ctx);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      Config g;
      make(i, m, g);
      return describe(m, g);
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P38";
  opt.rule = "the call writes something exactly when a setting is overridden or no line exists";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs";
  return mc::drive(argc, argv, opt, sp);
}
