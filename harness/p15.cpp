// P15: two calls on two real threads under a controlled scheduler. A thread can
// only be preempted where it allocates (thorough: or releases) memory; every such
// point is tried.
#include <semaphore.h>
#include <atomic>
#include <cstdlib>
#include <new>
#include <thread>

#include "alphabet.hpp"
using namespace vf;

namespace {
struct Sched {
  sem_t go[2], free_run;
  std::atomic<int> done[2];
  std::atomic<bool> loose{false};  // the other thread was blocked by a lock: both run
  // quota[t]: scheduling points after which thread t hands over, in turn
  std::vector<long> quota[2];
};
struct Me {
  Sched *s = nullptr;
  int id = 0;
  bool on = false;
  long n = 0;
  size_t next = 0;
};
thread_local Me me;
std::atomic<long> g_loose{0};

void wait_turn(Sched &s, int id) {
  for (;;) {
    timespec t{};
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_nsec += 100000000;
    if (t.tv_nsec >= 1000000000) {
      t.tv_nsec -= 1000000000;
      ++t.tv_sec;
    }
    const int r = sem_timedwait(&s.go[id], &t);
    if (r == 0) return;
    if (errno == EINTR) continue;
    // The other thread does not come back: it waits for something we hold
    s.loose = true;
    ++g_loose;
    return;
  }
}

inline void point() {
  if (!me.on) return;
  Sched &s = *me.s;
  ++me.n;
  auto &q = s.quota[me.id];
  if (me.next < q.size() && me.n >= q[me.next] && !s.loose) {
    ++me.next;
    me.on = false;
    if (!s.done[1 - me.id]) {
      sem_post(&s.go[1 - me.id]);
      wait_turn(s, me.id);
    }
    me.on = true;
  }
}
struct Guard {
  Guard() { me.on = me.s != nullptr; }
  ~Guard() { me.on = false; }
};
bool g_release = false;  // releases are scheduling points too (thorough)
thread_local bool t_count = false;
thread_local long t_n = 0;
struct Counting {
  Counting() {
    t_n = 0;
    t_count = true;
  }
  ~Counting() { t_count = false; }
};
}  // namespace

void *operator new(std::size_t n) {
  point();
  if (t_count) ++t_n;
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void release(void *p) {
  if (g_release) {
    point();
    if (t_count) ++t_n;
  }
  std::free(p);
}
void operator delete(void *p) noexcept { release(p); }
void operator delete(void *p, std::size_t) noexcept { release(p); }

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_s = mc::counter("schedules"), c_2 = mc::counter("schedules with two preemptions"), c_in = mc::counter("schedules whose second call ran inside the first"), c_l = mc::counter("schedules in which a thread was blocked by the other");
  g_release = T;
  build_alphabet();
  std::vector<long> pts;
  for (auto &a : A) {
    World w;
    raw<Counting>(a, w);  // first use may initialise
    World v;
    raw<Counting>(a, v);
    pts.push_back(t_n);
    World u;
    a.ref = perform(a, u);
  }
  auto execute = [=](int x, int y, const std::vector<long> &qx, const std::vector<long> &qy, mc::Ctx &ctx) {
    Sched s;
    for (int k = 0; k < 2; ++k) {
      sem_init(&s.go[k], 0, 0);
      s.done[k] = 0;
    }
    s.quota[0] = qx;
    s.quota[1] = qy;
    const long before = g_loose;
    World w[2];
    bool rej[2] = {false, false};
    std::string err[2];
    std::atomic<long> reached{0};
    auto body = [&](int id, int act) {
      me = Me{};
      me.s = &s;
      me.id = id;
      wait_turn(s, id);
      try {
        rej[id] = raw<Guard>(A[static_cast<size_t>(act)], w[id]);
      } catch (const std::exception &e) {
        err[id] = e.what();
      }
      if (id == 0) reached = static_cast<long>(me.next);
      me.s = nullptr;
      s.done[id] = 1;
      sem_post(&s.go[1 - id]);
    };
    std::thread t0(body, 0, x);
    std::thread t1(body, 1, y);
    sem_post(&s.go[0]);
    t0.join();
    t1.join();
    ctx.count(c_s);
    ctx.trans(1 + static_cast<u64>(qx.size() + qy.size()));
    if (reached > 0) ctx.count(c_in);
    if (g_loose != before) ctx.count(c_l);
    for (int k = 0; k < 2; ++k) {
      const Action &a = A[static_cast<size_t>(k ? y : x)];
      const std::string name = k ? "second" : "first";
      if (!err[k].empty()) ctx.fail("the " + name + " call (" + a.name + ") threw " + err[k]);
      const bool rejref = a.ref.compare(0, 16, "invalid_argument") == 0;
      if (rej[k] != rejref) ctx.fail("the " + name + " call (" + a.name + ") was " + (rej[k] ? "rejected" : "accepted"));
      if (!rej[k]) {
        const auto r = shown(a, w[k]);
        if (r != a.ref) ctx.fail("the " + name + " call (" + a.name + ") gave " + r + ", alone it gives " + a.ref);
      }
      if (hash_inputs(a) != a.hash) ctx.fail("the inputs of the " + name + " call (" + a.name + ") were modified");
    }
    for (auto &g : s.go) sem_destroy(&g);
    ctx.trace();
  };
  std::vector<mc::Space> sp;
  auto name = [](int k) { return "(" + A[static_cast<size_t>(k)].name + ")"; };
  {
    // One preemption: every point of the first call x the second call
    std::vector<int> second;
    for (int k = 0; k < static_cast<int>(A.size()); ++k)
      if (T || k % 5 == 1 || A[static_cast<size_t>(k)].kind == 1) second.push_back(k);
    auto cum = std::make_shared<std::vector<std::array<long, 3>>>();  // first, second, start
    long tot = 0;
    for (int x = 0; x < static_cast<int>(A.size()); ++x) {
      std::vector<int> ys = second;
      if (std::find(ys.begin(), ys.end(), x) == ys.end()) ys.push_back(x);
      for (int y : ys) {
        cum->push_back({x, y, tot});
        tot += pts[static_cast<size_t>(x)] + 1;
      }
    }
    auto find = [=](u64 i) {
      auto it = std::upper_bound(cum->begin(), cum->end(), static_cast<long>(i), [](long v, const std::array<long, 3> &e) { return v < e[2]; });
      --it;
      return std::array<long, 3>{(*it)[0], (*it)[1], static_cast<long>(i) - (*it)[2]};
    };
    mc::Space s;
    s.name = "one_preemption";
    s.what = std::to_string(A.size()) + " first calls x " + std::to_string(second.size()) + " second calls and itself x every memory operation of the first call as the point of preemption (0: one after the other)";
    s.size = static_cast<u64>(tot);
    s.chunk = 256;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto c = find(i);
      ctx.state(mc::mix(mc::mix(static_cast<u64>(c[0]), static_cast<u64>(c[1])), static_cast<u64>(c[2])));
      execute(static_cast<int>(c[0]), static_cast<int>(c[1]), c[2] ? std::vector<long>{c[2]} : std::vector<long>{}, {}, ctx);
    };
    s.describe = [=](u64 i) {
      const auto c = find(i);
      return "first " + name(static_cast<int>(c[0])) + " preempted at its memory operation " + std::to_string(c[2]) + ", second " + name(static_cast<int>(c[1])) + " runs to the end, first resumes";
    };
    sp.push_back(s);
  }
  {
    // Two preemptions, smallest calls
    std::vector<int> small;
    for (int k = 0; k < static_cast<int>(A.size()); ++k)
      if (pts[static_cast<size_t>(k)] > 0 && pts[static_cast<size_t>(k)] <= (T ? 400 : 80)) small.push_back(k);
    auto cum = std::make_shared<std::vector<std::array<long, 3>>>();
    long tot = 0;
    for (int x : small)
      for (int y : small) {
        cum->push_back({x, y, tot});
        tot += pts[static_cast<size_t>(x)] * pts[static_cast<size_t>(y)];
      }
    auto find = [=](u64 i) {
      auto it = std::upper_bound(cum->begin(), cum->end(), static_cast<long>(i), [](long v, const std::array<long, 3> &e) { return v < e[2]; });
      --it;
      const long r = static_cast<long>(i) - (*it)[2], n = pts[static_cast<size_t>((*it)[1])];
      return std::array<long, 4>{(*it)[0], (*it)[1], r / n + 1, r % n + 1};
    };
    mc::Space s;
    s.name = "two_preemptions";
    s.what = "all ordered pairs of the " + std::to_string(small.size()) + " calls with fewest memory operations x every pair of preemption points";
    s.size = static_cast<u64>(tot);
    s.chunk = 256;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto c = find(i);
      ctx.count(c_2);
      ctx.state(mc::mix(mc::mix(mc::mix(static_cast<u64>(c[0]), static_cast<u64>(c[1])), static_cast<u64>(c[2])), static_cast<u64>(c[3])));
      execute(static_cast<int>(c[0]), static_cast<int>(c[1]), {c[2]}, {c[3]}, ctx);
    };
    s.describe = [=](u64 i) {
      const auto c = find(i);
      return "first " + name(static_cast<int>(c[0])) + " preempted at its memory operation " + std::to_string(c[2]) + ", second " + name(static_cast<int>(c[1])) + " at its " + std::to_string(c[3]);
    };
    sp.push_back(s);
  }
  for (size_t k = 0; k < A.size() && getenv("P15_POINTS"); ++k) std::printf("%4ld %s\n", pts[k], A[k].name.c_str());
  mc::Options opt;
  opt.property = "P15";
  opt.rule = "both calls give the results they give alone";
  opt.states_meaning = "distinct (call, call, preemption points) schedules";
  opt.transitions_meaning = "scheduling decisions";
  opt.traces_meaning = "schedules executed on real threads";
  return mc::drive(argc, argv, opt, sp);
}
