// FLAGS: -fsanitize=address,undefined -fno-sanitize-recover=all
// FLAGS-thorough: -D_GLIBCXX_DEBUG
#include <cstdlib>
#include <new>

#include "universe.hpp"
using namespace vf;

// Allocation balance: what a case acquires it releases
static long g_live = 0;
void *operator new(std::size_t n) {
  ++g_live;
  void *p = std::malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept {
  if (p) --g_live;
  std::free(p);
}
void operator delete(void *p, std::size_t) noexcept {
  if (p) --g_live;
  std::free(p);
}

extern "C" const char *__asan_default_options() { return "abort_on_error=0:exitcode=66:detect_leaks=0:malloc_fill_byte=167:max_malloc_fill_size=4096:allocator_may_return_null=1:quarantine_size_mb=8:detect_stack_use_after_return=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:exitcode=67"; }

// Exact-size copies: a vector without spare capacity, so that reading one past
// the end is seen
template<class V>
static void tight(V &v) { v.shrink_to_fit(); }

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_call = mc::counter("agglomeration calls"), c_cg = mc::counter("coarse graph calls"), c_hlp = mc::counter("helper calls"), c_rej = mc::counter("rejected calls");
  auto f = [=](const Mesh &m0, const Config &g0, mc::Ctx &ctx) {
    Mesh m = m0;
    Config g = g0;
    tight(m.row); tight(m.col); tight(m.w); tight(m.vol); tight(m.c); tight(m.prio); tight(m.nbnd);
    tight(g.compliant); tight(g.lidx); tight(g.lines);
    ctx.state(hash_mesh(m));
    const long live = g_live;
    {
      Result r;
      bool ok = true;
      try {
        r = call(m, g);
      } catch (const std::invalid_argument &) {
        ok = false;
        ctx.count(c_rej);
      }
      ctx.count(c_call);
      ctx.trans();
      if (ok) {
        groups(m, r);
        std::vector<UL> row, col;
        std::vector<double> w, vol, prio;
        std::vector<std::vector<double>> c;
        std::vector<int> nb;
        tight(r.f2c);
        build_coarse_graph<UL, double, int>(r.f2c, m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, row, col, w, vol, c, prio, nb);
        ctx.count(c_cg);
        // next level, with the exported lines
        Mesh q;
        q.dim = m.dim;
        q.row = row; q.col = col; q.w = w; q.vol = vol; q.c = c; q.prio = prio; q.nbnd = nb;
        Config h = g;
        h.compliant.clear();
        if (g.aniso) {
          h.build = false;
          h.lidx = r.lidx;
          h.lines = r.lines;
          tight(h.lidx); tight(h.lines);
        }
        const Result r2 = call(q, h);
        groups(q, r2);
        ctx.count(c_call);
        std::vector<double> d;
        compute_neighbourhood_based_wall_distance<UL, double>(m.row, m.col, {r.f2c[0] % m.n()}, d);
        std::vector<UL> fl;
        filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, {0, 2, 4}, fl);
        ctx.count(c_hlp, 2);
        ctx.trans(4);
      }
    }
    if (g_live != live) ctx.fail("the calls leaked " + std::to_string(g_live - live) + " allocations");
    ctx.trace();
  };
  std::vector<mc::Space> sp;
  UOpt o;
  o.thorough = false;
  o.corr = {0, 1, 3};
  u64 si = 0;
  for (auto &u : universe(o)) {
    u64 stride = T ? 1 : 17;
    if (u.size < 3000) stride = 1;
    auto make = u.make;
    sp.push_back(as_space({u.name, u.what + (stride > 1 ? " (every 17th index)" : ""), (u.size + stride - 1) / stride, [make, stride](u64 i, Mesh &m, Config &c) { make(i * stride, m, c); }}, f, 256));
    ++si;
  }
  {
    // degenerate data: coincident centres, zero-length rows, zero weights, extreme values
    const Radix r{n_graphs(4), 4, 4, 3, kNAR, 2};
    sp.push_back(as_space({"degenerate", "all labelled graphs on 4 nodes x {coincident centres, huge values, tiny values, equal data} x 4 seed orderings x isotropic/built/provided lines x 10 aspect ratios x correction", T ? r.total() : r.total() / 4, [=](u64 i, Mesh &m, Config &g) {
                             const auto d = r.decode(T ? i : 4 * i + i % 4);
                             m = small_graph(4, d[0], d[1] == 0 ? 8 : d[1] == 3 ? 0 : 1);
                             if (d[1] == 1 || d[1] == 2) {
                               const double s = d[1] == 1 ? 1e60 : 1e-60;
                               for (auto &x : m.w) x *= s;
                               for (auto &x : m.vol) x *= s;
                               for (auto &x : m.prio) x *= s;
                               for (auto &x : m.c)
                                 for (auto &y : x) y *= s;
                             }
                             g.seed = kSeeds[d[2]];
                             g.ar = d[4];
                             g.aniso = d[3] > 0;
                             g.build = d[3] == 1;
                             g.athr = d[2] % 2 ? -1. : 1.;
                             if (d[3] == 1) g.compliant = all_cells(4);
                             if (d[3] == 2) set_lines(g, {{0, 1, 2}, {3}});
                             g.coupling = d[2] / 2;
                             set_corr(g, d[5]);
                             set_card(g, {2, 2, 3});
                           }}, f, 256));
  }
  mc::Options opt;
  opt.property = "P17";
  opt.rule = "AddressSanitizer, UndefinedBehaviorSanitizer and the checked standard library stay silent, and allocations balance";
  opt.states_meaning = "distinct meshes";
  opt.transitions_meaning = "library calls executed under the sanitizers";
  opt.traces_meaning = "complete cases (call, coarse graph, next level, helpers)";
  opt.case_timeout = 60;
  return mc::drive(argc, argv, opt, sp);
}
