#include "pool.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_seed = mc::counter("seeds compared"), c_none = mc::counter("exhausted pools"), c_ins = mc::counter("insertions"), c_init = mc::counter("pools initialised after an anisotropic start"), c_noinit = mc::counter("pools kept after an anisotropic start");
  std::vector<mc::Space> sp;
  using BP = Seeds_Pool_Boundary_Priority<UL, double, int>;
  using NP = Seeds_Pool_Neighbourhood_Priority<UL, double, int>;
  struct Scenario {
    std::vector<int> nb;
    std::vector<double> pr;
    bool neigh, one;
    std::vector<bool> pre;       // agglomerated before the pool is used
    bool aniso = false;
    std::vector<UL> first;       // neighbours given at the anisotropic start
    std::vector<std::pair<int, int>> steps;  // insertion kind, extra cells agglomerated with the seed
  };
  auto text = [](const Scenario &s) {
    std::string o = std::string(s.neigh ? "neighbourhood" : "boundary") + "-first pool, " + (s.one ? "one-point" : "full") + " initialisation, n_bnd=" + str(s.nb) + " priority=" + str(s.pr);
    if (s.aniso) o += " agglomerated=" + str(s.pre) + " neighbours=" + str(s.first);
    o += " steps(insertion,extra)=";
    for (auto &q : s.steps) o += "(" + std::to_string(q.first) + "," + std::to_string(q.second) + ")";
    return o;
  };
  auto play = [=](const Scenario &s, mc::Ctx &ctx) {
    const UL n = s.nb.size();
    std::unique_ptr<Seeds_Pool<UL, double, int>> p;
    if (s.neigh) p = std::make_unique<NP>(s.nb, s.pr, s.one);
    else p = std::make_unique<BP>(s.nb, s.pr, s.one);
    Pool q{s.nb, s.pr, s.neigh, s.one, {}, {}};
    std::vector<bool> agg = s.pre;
    agg.resize(n, false);
    if (!p->need_initialization(agg)) ctx.fail("a new pool claims to be initialised");
    if (!s.aniso) {
      p->initialize();
      q.initialize();
    } else {
      std::deque<UL> d(s.first.begin(), s.first.end());
      if (!d.empty()) {
        p->set_top_queue(s.nb[d.front()]);
        q.cur = s.nb[d.front()];
        p->update(d);
        q.insert(s.first);
      }
      const bool need = p->need_initialization(agg);
      bool want = s.first.empty();
      if (!s.neigh && !want) {
        const auto h = q.highest(agg);
        if (h && *h > *q.cur) {
          want = true;
          q.cur = h;
        }
      }
      if (need != want) ctx.fail(std::string("the pool ") + (need ? "needs" : "does not need") + " initialisation");
      if (need) {
        p->initialize();
        q.initialize();
      }
      ctx.count(need ? c_init : c_noinit);
    }
    u64 h = mc::hash_seq(mc::hash_seq(11 + s.neigh + 2 * s.one, s.nb), s.pre);
    for (auto x : s.pr) h = mc::mix(h, mc::hash_bits(x));
    h = mc::hash_seq(h, s.first);
    for (size_t k = 0;; ++k) {
      const std::pair<int, int> st = k < s.steps.size() ? s.steps[k] : std::pair<int, int>{0, 0};
      // insertion
      std::vector<UL> rem;
      for (UL i = 0; i < n; ++i)
        if (!agg[i]) rem.push_back(i);
      if (st.first == 1 || st.first == 2) {
        if (st.first == 2) std::reverse(rem.begin(), rem.end());
        p->update(std::deque<UL>(rem.begin(), rem.end()));
        q.insert(rem);
        ctx.count(c_ins);
      } else if (st.first == 3) {
        p->order_new_seeds_and_update({rem.begin(), rem.end()});
        q.insert_group(rem);
        ctx.count(c_ins);
      } else if (st.first >= 4) {
        // all pairs of cells, agglomerated or not
        int c = 4;
        for (UL a = 0; a < n; ++a)
          for (UL b = a + 1; b < n; ++b, ++c)
            if (c == st.first) {
              p->order_new_seeds_and_update({a, b});
              q.insert_group({a, b});
              ctx.count(c_ins);
            }
      }
      const auto got = p->choose_new_seed(agg);
      const auto exp = q.choose(agg);
      ctx.trans();
      h = mc::mix(h, static_cast<u64>(st.first * 64 + st.second) * 31 + (got ? *got + 1 : 0));
      ctx.state(h);
      if (got != exp) ctx.fail("request " + std::to_string(k + 1) + ": seed " + (got ? std::to_string(*got) : std::string("none")) + ", expected " + (exp ? std::to_string(*exp) : std::string("none")));
      if (got && agg[*got]) ctx.fail("an agglomerated cell was returned");
      if (!got) {
        for (UL i = 0; i < n; ++i)
          if (!agg[i]) ctx.fail("no seed although cell " + std::to_string(i) + " is left");
        ctx.count(c_none);
        break;
      }
      ctx.count(c_seed);
      // boundary-first: a cell of the highest remaining level
      if (!s.neigh && !s.aniso)
        for (UL i = 0; i < n; ++i)
          if (!agg[i] && s.nb[i] > s.nb[*got]) ctx.fail("seed " + std::to_string(*got) + " although cell " + std::to_string(i) + " has more boundary faces");
      agg[*got] = true;
      if (st.second) {
        std::vector<UL> left;
        for (UL i = 0; i < n; ++i)
          if (!agg[i]) left.push_back(i);
        if (st.second > 2) {  // nearly all, every other one, or the first two thirds
          for (size_t q = 0; q < left.size(); ++q)
            if (st.second == 3 ? q + 2 < left.size() : st.second == 4 ? q % 2 == 0 : q < left.size() * 2 / 3) agg[left[q]] = true;
        } else if (!left.empty())
          agg[st.second == 1 ? left.front() : left.back()] = true;
      }
    }
    ctx.trace();
  };
  static const double P[4][6] = {{1, 1, 1, 1, 1, 1}, {0, 1, 2, 3, 4, 5}, {0, -1, -2, -3, -4, -5}, {-1, -3, -1, -3, -2, -2}};
  auto add = [&](std::string name, std::string what, u64 size, std::function<Scenario(u64)> mk, u64 chunk = 2048) {
    mc::Space s;
    s.name = name;
    s.what = what;
    s.size = size;
    s.chunk = chunk;
    s.run = [=](u64 i, mc::Ctx &ctx) { play(mk(i), ctx); };
    s.describe = [=](u64 i) { return text(mk(i)); };
    sp.push_back(s);
  };
  auto digits = [](u64 v, int base, int n) {
    std::vector<int> r;
    for (int k = 0; k < n; ++k, v /= static_cast<u64>(base)) r.push_back(static_cast<int>(v % static_cast<u64>(base)));
    return r;
  };
  {
    const Radix r{256, 4, 4};
    add("plain", "all boundary counts in 0..3 of 4 cells x 4 priority patterns x 2 pools x 2 initialisations, without insertions", r.total(), [=](u64 i) {
      const auto d = r.decode(i);
      Scenario s;
      s.nb = digits(static_cast<u64>(d[0]), 4, 4);
      s.pr.assign(P[d[1]], P[d[1]] + 4);
      s.neigh = d[2] & 1;
      s.one = d[2] & 2;
      return s;
    });
  }
  {
    const int I = 10;
    const Radix r{81, T ? 4u : 2u, 4, I, 3, I, 3, T ? u64{I} : u64{4}, T ? 3u : 1u};
    add("insertions", "all boundary counts in {0,1,3} of 4 cells x priority patterns x 2 pools x 2 initialisations x up to 3 interleaved insertions (none, remaining cells in two orders, ordered, every pair) x cells agglomerated with the seed", r.total(), [=](u64 i) {
      const auto d = r.decode(i);
      Scenario s;
      for (auto v : digits(static_cast<u64>(d[0]), 3, 4)) s.nb.push_back(v == 2 ? 3 : v);
      const int k = T ? d[1] : 2 * d[1] + 1;
      s.pr.assign(P[k], P[k] + 4);
      s.neigh = d[2] & 1;
      s.one = d[2] & 2;
      s.steps = {{d[3], d[4]}, {d[5], d[6]}, {d[7], d[8]}};
      return s;
    });
  }
  {
    const int n = 5;
    const Radix r{T ? u64{1024} : u64{243}, 31, 8, T ? 2u : 1u, 4, 3, 2, T ? 2u : 1u};
    add("anisotropic", "all boundary counts in 0.." + std::string(T ? "3" : "2") + " of 5 cells x all agglomerated subsets x 8 lists of neighbours x 2 pools x 2 initialisations x first insertion x cells agglomerated with the seed x priority patterns", r.total(), [=](u64 i) {
      const auto d = r.decode(i);
      Scenario s;
      s.aniso = true;
      s.nb = digits(static_cast<u64>(d[0]), T ? 4 : 3, n);
      for (int k = 0; k < n; ++k) s.pre.push_back(d[1] >> k & 1);
      std::vector<UL> rem;
      for (UL k = 0; k < n; ++k)
        if (!s.pre[k]) rem.push_back(k);
      for (size_t k = 0; k < rem.size() && k < 3; ++k)
        if (d[2] >> k & 1) s.first.push_back(rem[k]);
      if (d[3]) std::reverse(s.first.begin(), s.first.end());
      s.neigh = d[4] & 1;
      s.one = d[4] & 2;
      s.steps = {{d[5] + 1, d[6]}};
      s.pr.assign(P[d[7] + 1], P[d[7] + 1] + n);
      return s;
    });
  }
  {
    const Radix r{64, 4, 4, 4, 3, 4, 3, 4};
    add("six", "boundary counts in {0,2} of 6 cells x 4 priority patterns x 2 pools x 2 initialisations x 3 insertions x cells agglomerated with the seed", r.total(), [=](u64 i) {
      const auto d = r.decode(i);
      Scenario s;
      for (auto v : digits(static_cast<u64>(d[0]), 2, 6)) s.nb.push_back(2 * v);
      s.pr.assign(P[d[1]], P[d[1]] + 6);
      s.neigh = d[2] & 1;
      s.one = d[2] & 2;
      s.steps = {{d[3], d[4]}, {d[5], d[6]}, {d[7], 0}};
      return s;
    });
  }
  {
    static const UL N[12] = {7, 12, 21, 24, 40, 41, 42, 64, 65, 100, 130, 260};
    const Radix r{12, 6, 6, 4, 4, 3, 4, 5};
    add("scale", "pools of 7 to 260 cells x 6 boundary patterns x 6 priority patterns (constant, increasing, decreasing, strongly negative, differing in the last bits, cyclic) x 2 pools x 2 initialisations x insertions x many cells agglomerated with the seed x plain or anisotropic start with 3, 12 or all remaining cells given upwards or downwards", r.total(), [=](u64 i) {
      const auto d = r.decode(i);
      Scenario s;
      const UL n = N[d[0]];
      for (UL k = 0; k < n; ++k) {
        const int x = static_cast<int>(k);
        s.nb.push_back(d[1] == 0 ? 0 : d[1] == 1 ? x % 4 : d[1] == 2 ? (k + 1 == n ? 2 : k + 3 > n ? 1 : 0) : d[1] == 3 ? (k > n / 2 ? 1 : 2) : d[1] == 4 ? x * 7 % 9 % 4 : (k == 0 ? 3 : k + 1 == n ? 2 : 1));
        s.pr.push_back(d[2] == 0 ? 1. : d[2] == 1 ? x : d[2] == 2 ? -x : d[2] == 3 ? -1e9 - 1e7 * (x * 5 % 11) : d[2] == 4 ? 1. + std::ldexp(x * 5 % 11, -50) : x * 3 % 7);
      }
      s.neigh = d[3] & 1;
      s.one = d[3] & 2;
      s.steps = {{d[4], d[5] ? d[5] + 2 : 0}, {d[6], d[5] == 2 ? 5 : 0}};
      if (d[7]) {
        s.aniso = true;
        s.pre.assign(n, false);
        for (UL k = 0; k < n / 3; ++k) s.pre[k] = true;
        for (UL k = n / 3; k < n / 3 + (d[7] == 1 ? 3 : d[7] == 2 ? 12 : n) && k < n; ++k) s.first.push_back(k);
        if (d[7] == 4) std::reverse(s.first.begin(), s.first.end());
      }
      return s;
    }, 16);
  }
  mc::Options opt;
  opt.property = "P20";
  opt.rule = "each seed equals the one of the ticket model; one is returned exactly while a cell is left";
  opt.states_meaning = "distinct (pool, history) prefixes";
  opt.transitions_meaning = "seed requests";
  opt.traces_meaning = "histories replayed on the real pools until exhaustion";
  return mc::drive(argc, argv, opt, sp);
}
