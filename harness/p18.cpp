#include <cstdlib>
#include <new>

#include "alphabet.hpp"
using namespace vf;

// Scripted allocation failures: the k-th throwing allocation after arming fails
// (mode 0), or it and all the following ones (mode 1)
static long g_live = 0, g_count = 0, g_fail_at = -1, g_failed = 0;
static bool g_armed = false, g_persist = false;
void *operator new(std::size_t n) {
  if (g_armed) {
    const long k = g_count++;
    if (g_fail_at >= 0 && (k == g_fail_at || (g_persist && k > g_fail_at))) {
      ++g_failed;
      throw std::bad_alloc();
    }
  }
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++g_live;
  return p;
}
// Optional buffers (e.g. of sorting algorithms) do not count as failures
void *operator new(std::size_t n, const std::nothrow_t &) noexcept {
  void *p = std::malloc(n ? n : 1);
  if (p) ++g_live;
  return p;
}
void operator delete(void *p) noexcept {
  if (p) --g_live;
  std::free(p);
}
void operator delete(void *p, std::size_t) noexcept {
  if (p) --g_live;
  std::free(p);
}
void operator delete(void *p, const std::nothrow_t &) noexcept {
  if (p) --g_live;
  std::free(p);
}

struct Arm {
  Arm() { g_count = g_failed = 0; g_armed = true; }
  ~Arm() { g_armed = false; }
};

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_inj = mc::counter("injected failures"), c_clean = mc::counter("failures that surfaced as bad_alloc"), c_opt = mc::counter("failures of optional memory: the call completed with its usual result"), c_after = mc::counter("later calls compared");
  build_alphabet();
  if (T) {
    // more calls: every mesh of the big family
    for (int k = 0; k < kBig; ++k) {
      Action a;
      a.m = big_mesh(k);
      a.name = "mesh " + std::to_string(k);
      a.g.seed = kSeeds[k % 4];
      a.g.ar = k % kNAR;
      set_corr(a.g, 1 + k % 2);
      set_card(a.g, {4, 3, 5});
      a.g.aniso = k % 3 == 0;
      a.g.athr = 0.9;
      a.g.compliant = all_cells(a.m.n());
      a.hash = hash_inputs(a);
      A.push_back(a);
    }
  }
  struct Case {
    int act;
    long k;
  };
  auto cases = std::make_shared<std::vector<Case>>();
  for (size_t i = 0; i < A.size(); ++i) {
    World w;
    g_fail_at = -1;
    raw<Arm>(A[i], w);
    const long n = g_count;
    for (long k = 0; k < n; ++k) cases->push_back({static_cast<int>(i), k});
    World v;
    A[i].ref = perform(A[i], v);
  }
  std::vector<mc::Space> sp;
  auto run = [=](const Case &c, int mode, mc::Ctx &ctx) {
    Action &a = A[static_cast<size_t>(c.act)];
    const bool persist = mode & 1, dirty = mode & 2;
    bool bad = false, rejected = false;
    std::string other, res;
    res.reserve(1 << 16);
    other.reserve(1024);
    const long live = g_live;
    {
      World w;
      if (dirty) {
        w.f2c = {9, 9, 9};
        w.lidx = {4, 2};
        w.lines = {7, 7, 7, 7, 7, 7, 7};
        w.crow = {1, 2};
        w.cc = {{1.}, {2., 3.}};
      }
      g_fail_at = c.k;
      g_persist = persist;
      try {
        rejected = raw<Arm>(a, w);
      } catch (const std::bad_alloc &) {
        bad = true;
      } catch (const std::exception &e) {
        other = e.what();
      }
      g_fail_at = -1;
      g_persist = false;
      if (!bad && other.empty() && !rejected && g_failed) res.append(shown(a, w));
    }
    ctx.count(c_inj);
    ctx.trans();
    ctx.state(mc::mix(mc::mix(static_cast<u64>(c.act), static_cast<u64>(c.k)), static_cast<u64>(mode)));
    if (!g_failed) return;  // dirty outputs may need fewer allocations
    if (!other.empty()) ctx.fail("the failure surfaced as another exception: " + other);
    if (!bad) {
      // Memory the library can do without (e.g. shrinking a vector): the call must have done its work
      if (rejected ? a.ref[0] != 'i' : res != a.ref) ctx.fail("the failed allocation was swallowed and the result is " + res + " instead of " + a.ref);
      ctx.count(c_opt);
    } else
      ctx.count(c_clean);
    if (g_live != live) ctx.fail(std::to_string(g_live - live) + " allocations leaked");
    if (hash_inputs(a) != a.hash) ctx.fail("the inputs were modified");
    // a later call behaves normally: the same one and another one
    for (int q = 0; q < 2; ++q) {
      Action &b = q ? A[(static_cast<size_t>(c.act) + static_cast<size_t>(c.k) + 1) % A.size()] : a;
      World w;
      const std::string r = perform(b, w);
      ctx.count(c_after);
      if (r != b.ref) ctx.fail("later call (" + b.name + ") gave " + r + ", expected " + b.ref);
    }
    ctx.trace();
  };
  mc::Space s;
  s.name = "faults";
  s.what = "every allocation (" + std::to_string(cases->size()) + ") of " + std::to_string(A.size()) + " calls x that one/that one and all later ones fail x empty/non-empty outputs";
  s.size = cases->size() * 4;
  s.run = [=](u64 i, mc::Ctx &ctx) { run((*cases)[i / 4], static_cast<int>(i % 4), ctx); };
  s.describe = [=](u64 i) {
    const Case &c = (*cases)[i / 4];
    return "allocation " + std::to_string(c.k) + (i & 1 ? " and all later ones fail" : " fails") + (i & 2 ? ", non-empty outputs" : "") + " in (" + A[static_cast<size_t>(c.act)].name + ") " + describe(A[static_cast<size_t>(c.act)].m, A[static_cast<size_t>(c.act)].g);
  };
  sp.push_back(s);
  mc::Options opt;
  opt.property = "P18";
  opt.level = "fault_enumeration";
  opt.rule = "std::bad_alloc surfaces, nothing leaks, inputs are unchanged, later calls give their reference results";
  opt.states_meaning = "distinct (call, failing allocation, mode) triples";
  opt.transitions_meaning = "faulty calls";
  opt.traces_meaning = "faulty calls followed by two verified normal calls";
  return mc::drive(argc, argv, opt, sp);
}
