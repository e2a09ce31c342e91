// P26: legacy containers against standard ones, over every operation sequence.
#include <deque>
#include <map>
#include <set>
#include <string>
#include "mc.hpp"
#include "CoMMA/deprecated/Bimap.h"
#include "CoMMA/deprecated/Priority_Pair.h"
#include "CoMMA/deprecated/Queue.h"
using namespace comma;
using u64 = mc::u64;

namespace {
// One digit per operation
std::vector<int> digits(u64 i, int base, int n) {
  std::vector<int> v(n);
  for (auto &x : v) {
    x = static_cast<int>(i % base);
    i /= base;
  }
  return v;
}
u64 power(u64 b, int e) {
  u64 r = 1;
  while (e--) r *= b;
  return r;
}
template<class T>
std::string sh(const T &x) {
  if constexpr (std::is_same_v<T, std::string>)
    return x;
  else
    return std::to_string(x);
}

template<class A, class B>
struct Maps {
  std::vector<A> as;
  std::vector<B> bs;
  int nops() const {
    const int a = static_cast<int>(as.size()), b = static_cast<int>(bs.size());
    return a * b + a * a + b * b + a;
  }
  // Operation o on both; false when its precondition does not hold
  bool apply(int o, Bimap<A, B> *m, std::map<int, int> &ref, std::string *log) const {
    const int a = static_cast<int>(as.size()), b = static_cast<int>(bs.size());
    auto has_b = [&](int y) {
      for (auto &[k, v] : ref)
        if (v == y) return true;
      return false;
    };
    if (o < a * b) {
      const int x = o / b, y = o % b;
      if (ref.count(x) || has_b(y)) return false;
      if (m) m->insert(as[x], bs[y]);
      if (log) *log += " insert(" + sh(as[x]) + "," + sh(bs[y]) + ")";
      ref[x] = y;
      return true;
    }
    o -= a * b;
    if (o < a * a) {
      const int x = o / a, z = o % a;
      if (ref.count(x) && x != z && ref.count(z)) return false;  // the new key must be free
      if (m) m->update_nodeB(as[x], as[z]);
      if (log) *log += " update_nodeB(" + sh(as[x]) + "," + sh(as[z]) + ")";
      if (ref.count(x) && x != z) {
        ref[z] = ref[x];
        ref.erase(x);
      }
      return true;
    }
    o -= a * a;
    if (o < b * b) {
      const int x = o / b, z = o % b;
      if (has_b(x) && x != z && has_b(z)) return false;
      if (m) m->update_nodeA(bs[x], bs[z]);
      if (log) *log += " update_nodeA(" + sh(bs[x]) + "," + sh(bs[z]) + ")";
      for (auto &[k, v] : ref)
        if (v == x) {
          v = z;
          break;
        }
      return true;
    }
    o -= b * b;
    if (!ref.count(o)) return false;
    if (m) m->erase_B(as[o]);
    if (log) *log += " erase_B(" + sh(as[o]) + ")";
    ref.erase(o);
    return true;
  }
  std::string compare(Bimap<A, B> &m, const std::map<int, int> &ref) const {
    if (m.lung() != ref.size()) return "size " + std::to_string(m.lung()) + ", expected " + std::to_string(ref.size());
    if (m.empty() != ref.empty()) return "empty() is wrong";
    for (auto &[x, y] : ref) {
      if (m.get_B(as[x]) != bs[y]) return "get_B(" + sh(as[x]) + ") is " + sh(m.get_B(as[x])) + ", expected " + sh(bs[y]);
      if (m.get_A(bs[y]) != as[x]) return "get_A(" + sh(bs[y]) + ") is " + sh(m.get_A(bs[y])) + ", expected " + sh(as[x]);
    }
    return {};
  }
};

template<class A, class B>
mc::Space bimap_space(const std::string &name, const Maps<A, B> &M, int first, int depth, int c_ops) {
  mc::Space s;
  s.name = name;
  s.what = "all sequences of " + std::to_string(depth) + " insertions of fresh pairs, key updates and erasures over " + std::to_string(M.as.size()) + "x" + std::to_string(M.bs.size()) + " keys";
  s.size = power(M.nops(), first);
  s.chunk = 4;
  auto log = [=](u64 i) {
    std::map<int, int> ref;
    std::string t;
    for (int o : digits(i, M.nops(), first))
      if (!M.apply(o, nullptr, ref, &t)) break;
    return "two-way map, sequences starting with" + t;
  };
  s.describe = log;
  s.run = [=](u64 i, mc::Ctx &ctx) {
    std::vector<int> h = digits(i, M.nops(), first);
    std::map<int, int> ref;
    for (int o : h)
      if (!M.apply(o, nullptr, ref, nullptr)) return;
    std::function<void(const std::map<int, int> &)> go = [&](const std::map<int, int> &r) {
      Bimap<A, B> m;
      std::map<int, int> q;
      for (int o : h) M.apply(o, &m, q, nullptr);
      ctx.trans();
      ctx.count(c_ops, h.size());
      ctx.state(mc::hash_seq(M.as.size(), h));
      const auto e = M.compare(m, q);
      if (!e.empty()) {
        std::string t;
        std::map<int, int> z;
        for (int o : h) M.apply(o, nullptr, z, &t);
        ctx.fail("after" + t + ": " + e);
      }
      if (static_cast<int>(h.size()) == depth) {
        ctx.trace();
        return;
      }
      for (int o = 0; o < M.nops(); ++o) {
        auto n = r;
        if (!M.apply(o, nullptr, n, nullptr)) continue;
        h.push_back(o);
        go(n);
        h.pop_back();
      }
    };
    go(ref);
  };
  return s;
}
}  // namespace

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_q = mc::counter("queue operations"), c_b = mc::counter("two-way map operations"), c_p = mc::counter("pair comparisons");
  std::vector<mc::Space> sp;
  {
    const int depth = T ? 10 : 8;
    mc::Space s;
    s.name = "queue";
    s.what = "all sequences of " + std::to_string(depth) + " operations among push of 3 values, pop and top, of three element types";
    s.size = power(5, depth);
    s.chunk = 4096;
    s.describe = [=](u64 i) {
      std::string t = "queue:";
      for (int o : digits(i, 5, depth)) t += o < 3 ? " push" + std::to_string(o) : o == 3 ? " pop" : " top";
      return t;
    };
    auto go = [=](auto zero, u64 i, mc::Ctx &ctx) {
      using V = decltype(zero);
      Queue<V> q;
      std::deque<V> r;
      for (int o : digits(i, 5, depth)) {
        ctx.count(c_q);
        if (o < 3) {
          const V v = static_cast<V>(o == 2 ? 100 : o);
          q.push(v);
          r.push_back(v);
        } else {
          const V e = r.empty() ? static_cast<V>(-1) : r.front();
          const V g = o == 3 ? q.pop() : q.top();
          if (o == 3 && !r.empty()) r.pop_front();
          if (!(g == e)) ctx.fail(std::string(o == 3 ? "pop" : "top") + " gives " + std::to_string(g) + ", expected " + std::to_string(e));
        }
        if (q.empty() != r.empty()) ctx.fail("empty() is wrong");
      }
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      go(long{0}, i, ctx);
      go((unsigned long){0}, i, ctx);
      go(double{0}, i, ctx);
      ctx.trans(3 * depth);
      ctx.trace(3);
      ctx.state(mc::mix(17, i));
    };
    sp.push_back(s);
  }
  {
    const int N = T ? 5 : 4;  // pairs of {-2..} x {-2..}
    mc::Space s;
    s.name = "pairs";
    s.what = "all triples of pairs over " + std::to_string(N) + "x" + std::to_string(N) + " values: order, equality, ordered sets";
    s.size = power(N * N, 3);
    s.chunk = 512;
    auto at = [=](int k) { return std::pair<int, int>{k / N - 2, k % N - 2}; };
    s.describe = [=](u64 i) {
      std::string t = "pairs";
      for (int k : digits(i, N * N, 3)) t += " (" + std::to_string(at(k).first) + "," + std::to_string(at(k).second) + ")";
      return t;
    };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto d = digits(i, N * N, 3);
      auto less = [](std::pair<int, int> a, std::pair<int, int> b) { return a.first != b.first ? a.first > b.first : a.second < b.second; };
      std::set<Priority_Pair<int, int>> si;
      std::set<Priority_Pair<double, long>> sd;
      std::set<std::pair<int, int>, decltype(less)> ref(less);
      for (int x : d) {
        const auto a = at(x);
        const Priority_Pair<int, int> pa{a.first, a.second};
        if (pa.first() != a.first || pa.second() != a.second) ctx.fail("members are not those given");
        for (int y : d) {
          const auto b = at(y);
          const Priority_Pair<int, int> pb{b.first, b.second};
          ctx.count(c_p);
          if ((pa < pb) != less(a, b)) ctx.fail("comparison of (" + std::to_string(a.first) + "," + std::to_string(a.second) + ") and (" + std::to_string(b.first) + "," + std::to_string(b.second) + ")");
          if ((pa == pb) != (a == b)) ctx.fail("equality");
        }
        si.insert(pa);
        sd.emplace(a.first * .5, a.second);
        ref.insert(a);
      }
      if (si.size() != ref.size() || sd.size() != ref.size()) ctx.fail("set of the wrong size");
      auto j = si.begin();
      auto k = sd.begin();
      for (const auto &p : ref) {
        if (j->first() != p.first || j->second() != p.second || k->first() != p.first * .5 || k->second() != p.second) ctx.fail("set in the wrong order");
        ++j;
        ++k;
      }
      ctx.trans();
      ctx.trace();
      ctx.state(mc::mix(23, i));
    };
    sp.push_back(s);
  }
  sp.push_back(bimap_space("bimap_int", Maps<long, int>{{3, -1, 8}, {5, 0, 2}}, 2, T ? 6 : 5, c_b));
  sp.push_back(bimap_space("bimap_text", Maps<unsigned long, std::string>{{0, 1}, {"a string longer than any small buffer", "b"}}, 2, T ? 7 : 6, c_b));
  // Larger maps: every order of insertion and erasure
  {
    const int K = T ? 7 : 6;
    std::vector<std::vector<int>> perms;
    std::vector<int> p(K);
    for (int k = 0; k < K; ++k) p[k] = k;
    do perms.push_back(p);
    while (std::next_permutation(p.begin(), p.end()));
    mc::Space s;
    s.name = "bimap_orders";
    s.what = "two-way map of " + std::to_string(K) + " pairs: all orders of insertion x all orders of erasure, with key updates in between";
    s.size = static_cast<u64>(perms.size()) * perms.size();
    s.chunk = 512;
    auto show = [=](const std::vector<int> &v) {
      std::string t;
      for (int x : v) t += " " + std::to_string(x);
      return t;
    };
    s.describe = [=](u64 i) { return "pairs inserted in the order" + show(perms[i % perms.size()]) + ", erased in the order" + show(perms[i / perms.size()]); };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const auto &in = perms[i % perms.size()], &out = perms[i / perms.size()];
      Maps<long, int> M;
      for (int k = 0; k < 2 * K; ++k) M.as.push_back(k), M.bs.push_back(100 - k);
      Bimap<long, int> m;
      std::map<int, int> ref;
      auto check = [&](const char *what) {
        const auto e = M.compare(m, ref);
        if (!e.empty()) ctx.fail(std::string(what) + ": " + e);
        ctx.count(c_b);
      };
      for (int k = 0; k < K; ++k) {
        m.insert(M.as[in[k]], M.bs[out[k]]);
        ref[in[k]] = out[k];
      }
      check("after the insertions");
      for (int k = 0; k < K; ++k) {
        if (k % 2) {
          m.update_nodeB(M.as[out[k]], M.as[K + out[k]]);
          ref[K + out[k]] = ref[out[k]];
          ref.erase(out[k]);
          check("after a key update");
          m.erase_B(M.as[K + out[k]]);
          ref.erase(K + out[k]);
        } else {
          m.erase_B(M.as[out[k]]);
          ref.erase(out[k]);
        }
        check("after an erasure");
      }
      ctx.trans(2 * K);
      ctx.trace();
      ctx.state(mc::mix(31, i));
    };
    sp.push_back(s);
  }
  // Many entries: sizes, orders of insertion and removal, updates of every other key
  static const int kMany[] = {2, 7, 8, 9, 10, 11, 15, 16, 17, 32, 33, 64, 65, 100, 130};
  auto order = [](int o, int k, int n) { return o == 0 ? k : o == 1 ? n - 1 - k : o == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : (k + n / 2) % n; };
  {
    mc::Space s;
    s.name = "bimap_many";
    s.what = "two-way maps of 2 to 130 pairs: 4 orders of insertion x 4 orders of erasure x key updates on either side";
    s.size = std::size(kMany) * 64;
    s.chunk = 8;
    s.describe = [=](u64 i) { return std::to_string(kMany[i / 64]) + " pairs, case " + std::to_string(i % 64); };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const int n = kMany[i / 64], in = static_cast<int>(i % 4), out = static_cast<int>(i / 4 % 4), upd = static_cast<int>(i / 16 % 4);
      Maps<long, int> M;
      for (int k = 0; k < 2 * n; ++k) M.as.push_back(7 * k - 50), M.bs.push_back(300 - 3 * k);
      Bimap<long, int> m;
      std::map<int, int> ref;
      auto check = [&](const char *what) {
        const auto e = M.compare(m, ref);
        if (!e.empty()) ctx.fail(std::string(what) + ": " + e);
        ctx.count(c_b);
        ctx.trans();
      };
      for (int k = 0; k < n; ++k) {
        const int x = order(in, k, n), y = order(out, k, n);
        m.insert(M.as[x], M.bs[y]);
        ref[x] = y;
        check("after an insertion");
      }
      std::vector<int> key(n);
      for (int k = 0; k < n; ++k) key[k] = k;
      for (int k = 0; k < n; ++k) {
        if (upd & 1 && k % 2) {
          m.update_nodeB(M.as[k], M.as[n + k]);
          ref[n + k] = ref[k];
          ref.erase(k);
          key[k] = n + k;
          check("after an update of a first key");
        }
        if (upd & 2 && k % 3 == 0) {
          const int y = ref[key[k]];
          m.update_nodeA(M.bs[y], M.bs[n + y]);
          ref[key[k]] = n + y;
          check("after an update of a second key");
        }
      }
      for (int k = 0; k < n; ++k) {
        const int x = key[order(out, k, n)];
        m.erase_B(M.as[x]);
        ref.erase(x);
        check("after an erasure");
      }
      ctx.trace();
      ctx.state(mc::mix(37, i));
    };
    sp.push_back(s);
  }
  {
    mc::Space s;
    s.name = "queue_many";
    s.what = "queues filled with up to 300 values, half emptied, refilled and emptied";
    s.size = 301 * 4;
    s.chunk = 16;
    s.describe = [=](u64 i) { return "queue of " + std::to_string(i / 4) + " values, case " + std::to_string(i % 4); };
    s.run = [=](u64 i, mc::Ctx &ctx) {
      const int n = static_cast<int>(i / 4), half = static_cast<int>(i % 4) * n / 4;
      Queue<long> q;
      std::deque<long> r;
      long v = 5;
      auto push = [&](int k) {
        while (k--) {
          v = v * 7 % 1009 - 3;
          q.push(v);
          r.push_back(v);
          ctx.trans();
          if (q.top() != r.front() || q.empty()) ctx.fail("first of " + std::to_string(r.size()) + " values");
        }
      };
      auto pop = [&](int k) {
        while (k--) {
          const long e = r.front(), g = q.pop();
          r.pop_front();
          ctx.trans();
          ctx.count(c_q);
          if (g != e) ctx.fail("pop gives " + std::to_string(g) + ", expected " + std::to_string(e));
          if (q.empty() != r.empty()) ctx.fail("empty() is wrong");
          if (q.top() != (r.empty() ? -1 : r.front())) ctx.fail("top is wrong");
        }
      };
      push(n);
      pop(half);
      push(n);
      pop(static_cast<int>(r.size()));
      ctx.trace();
      ctx.state(mc::mix(43, i));
    };
    sp.push_back(s);
  }
  mc::Options opt;
  opt.property = "P26";
  opt.rule = "every answer equals that of standard containers";
  opt.states_meaning = "distinct operation sequences";
  opt.transitions_meaning = "operations or sequences compared";
  opt.traces_meaning = "complete sequences replayed on the library";
  return mc::drive(argc, argv, opt, sp);
}
