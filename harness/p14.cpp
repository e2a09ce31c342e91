#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>

#include "alphabet.hpp"
using namespace vf;

static void references() {
  // Reference result of every action, each from its own process
  for (auto &a : A) {
    int fd[2];
    if (pipe(fd)) std::exit(2);
    const pid_t p = fork();
    if (p == 0) {
      World w;
      const std::string r = perform(a, w);
      (void)!write(fd[1], r.data(), r.size());
      _exit(0);
    }
    close(fd[1]);
    char b[65536];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) a.ref.append(b, static_cast<size_t>(k));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (st != 0) a.ref = "died";
  }
}

// Fingerprints of a batch of calls made in a new process, first to last or
// last to first, after one other call; 0 for those never reached
static constexpr u64 kBatch = 64;
static u64 *fingerprints(const Gen &u, u64 first, u64 n, bool backwards, int before) {
  static u64 *shared = nullptr;
  if (!shared) {
    void *p = mmap(nullptr, 2 * kBatch * sizeof(u64), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) std::exit(2);
    shared = static_cast<u64 *>(p);
  }
  u64 *out = shared + (backwards ? kBatch : 0);
  std::fill(out, out + kBatch, u64{0});
  const pid_t p = fork();
  if (p == 0) {
    World w;
    perform(A[before], w);
    for (u64 k = 0; k < n; ++k) {
      const u64 i = backwards ? n - 1 - k : k;
      Mesh m;
      Config g;
      u.make(first + i, m, g);
      const auto r = call(m, g);
      out[i] = mc::hash_seq(mc::hash_seq(mc::hash_seq(1, r.f2c), r.lidx), r.lines) | 1;
    }
    _exit(0);
  }
  if (p < 0) std::exit(2);
  int st = 0;
  waitpid(p, &st, 0);
  return out;
}

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_calls = mc::counter("calls compared with a fresh process"), c_rej = mc::counter("rejected calls in histories"),
            c_past = mc::counter("calls compared after two different pasts");
  build_alphabet();
  references();
  const u64 n = A.size();
  std::vector<mc::Space> sp;
  static const int perturb[4] = {0, 0x5A, 0xFF, 0x81};
  auto run = [=](const std::vector<int> &seq, int mode, mc::Ctx &ctx) {
    // mode bit 0: outputs of the previous calls are passed on; bits 1-2: pattern of fresh/freed memory
    mallopt(M_PERTURB, perturb[mode / 2]);
    World w;
    if (mode & 1) {
      w.f2c = {9, 9, 9};
      w.lidx = {4, 2};
      w.lines = {7, 7, 7, 7, 7, 7, 7};
    }
    u64 h = 3;
    for (size_t k = 0; k < seq.size(); ++k) {
      const Action &a = A[seq[k]];
      if (!(mode & 1)) w = World{};
      const std::string r = perform(a, w);
      ctx.count(c_calls);
      if (r[0] == 'i') ctx.count(c_rej);
      ctx.trans();
      h = mc::mix(h, static_cast<u64>(seq[k]) + 1);
      ctx.state(mc::mix(h, static_cast<u64>(mode)));
      if (r != a.ref) ctx.fail("call " + std::to_string(k + 1) + " (" + a.name + ") gave " + r + " but alone in a fresh process " + a.ref);
      if (hash_inputs(a) != a.hash) ctx.fail("call " + std::to_string(k + 1) + " (" + a.name + ") modified its inputs");
    }
    ctx.trace();
  };
  auto desc = [](const std::vector<int> &seq, int mode) {
    std::string s = "outputs " + std::string(mode & 1 ? "kept from call to call" : "fresh") + ", memory pattern " + std::to_string(perturb[mode / 2]) + ":";
    for (auto k : seq) s += " (" + A[k].name + ")";
    return s + " last call: " + describe(A[seq.back()].m, A[seq.back()].g);
  };
  auto space = [&](std::string name, std::string what, const Radix &r) {
    mc::Space s;
    s.name = name;
    s.what = what;
    s.size = r.total();
    auto dec = [r](u64 i, std::vector<int> &seq) {
      auto d = r.decode(i);
      const int mode = d.back();
      d.pop_back();
      seq = d;
      return mode;
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      std::vector<int> q;
      const int mode = dec(i, q);
      run(q, mode, ctx);
    };
    s.describe = [=](u64 i) {
      std::vector<int> q;
      const int mode = dec(i, q);
      return desc(q, mode);
    };
    sp.push_back(s);
  };
  const std::string N = std::to_string(n);
  {
    // Output vectors of many sizes and contents
    static const size_t sizes[10] = {1, 2, 7, 30, 64, 129, 300, 1025, 6000, 70000};
    const Radix r{n, 10, 4};
    mc::Space s;
    s.name = "prefilled";
    s.what = "the " + N + " calls x outputs holding 1 to 70000 values before x zeros, ones, huge values, increasing values";
    s.size = r.total();
    s.chunk = 16;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = r.decode(i);
      const Action &a = A[d[0]];
      World w;
      auto fill = [&](auto &v) {
        v.resize(sizes[d[1]]);
        using E = std::decay_t<decltype(v[0])>;
        for (size_t k = 0; k < v.size(); ++k) v[k] = d[2] == 0 ? E(0) : d[2] == 1 ? E(1) : d[2] == 2 ? std::numeric_limits<E>::max() : static_cast<E>(k);
      };
      fill(w.f2c);
      fill(w.lidx);
      fill(w.lines);
      fill(w.dist);
      fill(w.crow);
      fill(w.ccol);
      fill(w.cw);
      fill(w.cvol);
      fill(w.cprio);
      fill(w.cnb);
      w.cc.assign(sizes[d[1]], {1., 2., 3., 4.});
      const std::string got = perform(a, w);
      ctx.count(c_calls);
      ctx.trans();
      ctx.state(mc::mix(77, i));
      if (got != a.ref) ctx.fail(a.name + " gave " + got.substr(0, 300) + " but alone in a fresh process " + a.ref.substr(0, 300));
      ctx.trace();
    };
    s.describe = [=](u64 i) {
      const auto d = r.decode(i);
      return "outputs holding " + std::to_string(sizes[d[1]]) + " values of kind " + std::to_string(d[2]) + " before; " + describe(A[d[0]].m, A[d[0]].g);
    };
    sp.push_back(s);
  }
  space("one", "the " + N + " calls x fresh/kept outputs x 4 memory patterns", {n, 8});
  space("two", "all histories of 2 of the " + N + " calls x fresh/kept outputs x 4 memory patterns", {n, n, 8});
  space("three", "all histories of 3 of the " + N + " calls x fresh/kept outputs" + (T ? " x 4 memory patterns" : ""), {n, n, n, T ? 8u : 2u});
  if (T) space("four", "all histories of 4 of the " + N + " calls with kept outputs", {n, n, n, n, 2});
  {
    // Every call of the common universe after two different pasts
    UOpt o;
    o.thorough = T;
    o.corr = {2};
    int small = 0, large = 0;
    for (size_t k = 0; k < A.size(); ++k) {
      if (A[k].name == "two pieces") small = static_cast<int>(k);
      if (A[k].name == "large coarse cells") large = static_cast<int>(k);
    }
    for (const auto &u : universe(o)) {
      mc::Space s;
      s.name = "after-" + u.name;
      s.what = "every call of: " + u.what + "; in two new processes, in batches of 64, first to last after a call with small coarse cells and last to first after one with large ones";
      s.size = (u.size + kBatch - 1) / kBatch;
      s.chunk = 16;
      s.run = [=](u64 b, mc::Ctx &ctx) {
        const u64 first = b * kBatch, m = std::min(kBatch, u.size - first);
        const u64 *x = fingerprints(u, first, m, false, small), *y = fingerprints(u, first, m, true, large);
        for (u64 k = 0; k < m; ++k) {
          ctx.count(c_past);
          ctx.trans(2);
          if (x[k] == 0 || y[k] == 0 || x[k] != y[k]) {
            Mesh ms;
            Config g;
            u.make(first + k, ms, g);
            ctx.fail(std::string(x[k] == 0 || y[k] == 0 ? "the process ended before this call returned: " : "the result depends on the calls made before: ") + describe(ms, g));
          }
          ctx.state(mc::mix(x[k], first + k));
        }
        ctx.trace(2);
      };
      s.describe = [=](u64 b) {
        return "calls " + std::to_string(b * kBatch) + " to " + std::to_string(std::min(u.size, (b + 1) * kBatch) - 1) + " of " + u.name;
      };
      sp.push_back(s);
    }
  }
  mc::Options opt;
  opt.property = "P14";
  opt.rule = "every call of every history gives the result it gives alone in a fresh process, and leaves its inputs unchanged";
  opt.states_meaning = "distinct (history, output mode, memory pattern) prefixes";
  opt.transitions_meaning = "calls";
  opt.traces_meaning = "histories replayed on the real code";
  return mc::drive(argc, argv, opt, sp);
}
