#include "p32.hpp"
#ifdef STUB
std::vector<mc::Space> vf::pair_spaces(bool) { return {}; }
#else
#include <algorithm>
#include <set>
#include <unordered_map>
#include "CoMMA/Util.h"
using namespace comma;
using mc::u64;
namespace {
template<class F, class S>
std::vector<std::pair<F, S>> alphabet(const std::vector<F> &f, const std::vector<S> &s) {
  std::vector<std::pair<F, S>> v;
  for (auto a : f)
    for (auto b : s) v.emplace_back(a, b);
  return v;
}
template<class P>
std::string show(const P &p) {
  return "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
}
template<class P>
mc::Space triples(const std::string &name, const std::vector<P> &al) {
  const u64 k = al.size();
  auto at = [=](u64 i) { return std::array<P, 3>{al[i % k], al[i / k % k], al[i / k / k]}; };
  return {name, "all triples of pairs", k * k * k,
          [=](u64 i, mc::Ctx &ctx) {
            const auto [a, b, c] = at(i);
            ctx.state(mc::mix(mc::mix(3, i), mc::hash_seq(1, name)));
            ctx.trace();
            const CustomPairLessFunctor<P> lt;
            const CustomPairGreaterFunctor<P> gt;
            const PairSecondBasedLessFunctor<P> sec;
            for (const auto &[x, y] : {std::pair(a, b), std::pair(b, a), std::pair(a, c), std::pair(a, a)}) {
              ctx.trans();
              // By second value; with equal second values the lower first value is the greater one
              if (lt(x, y) != (x.second < y.second || (x.second == y.second && x.first > y.first))) ctx.fail("less " + show(x) + show(y));
              if (gt(x, y) != (x.second > y.second || (x.second == y.second && x.first < y.first))) ctx.fail("greater " + show(x) + show(y));
              if (sec(x, y) != (x.second < y.second)) ctx.fail("second-based less " + show(x) + show(y));
              if (PairFindFirstBasedFunctor<P>(x.first)(y) != (x.first == y.first)) ctx.fail("find by first " + show(x) + show(y));
            }
            if (lt(a, b) && lt(b, c) && !lt(a, c)) ctx.fail("less is not transitive");
            if (gt(a, b) && gt(b, c) && !gt(a, c)) ctx.fail("greater is not transitive");
          },
          [=](u64 i) {
            const auto t = at(i);
            return show(t[0]) + show(t[1]) + show(t[2]);
          },
          4096};
}
template<class P>
mc::Space sequences(const std::string &name, const std::vector<P> &al, int len) {
  const u64 k = al.size();
  u64 n = 1;
  for (int l = 0; l < len; ++l) n *= k;
  auto at = [=](u64 i) {
    std::vector<P> v;
    for (int l = 0; l < len; ++l, i /= k) v.push_back(al[i % k]);
    return v;
  };
  auto text = [=](u64 i) {
    std::string s;
    for (auto &p : at(i)) s += show(p);
    return s;
  };
  return {name, "all sequences of pairs", n,
          [=](u64 i, mc::Ctx &ctx) {
            const auto v = at(i);
            ctx.state(mc::mix(mc::mix(5, i), mc::hash_seq(1, name)));
            ctx.trace();
            ctx.trans(5);
            using F = typename P::first_type;
            using S = typename P::second_type;
            std::vector<F> firsts;
            for (auto &p : v) firsts.push_back(p.first);
            if (vector_of_first_elements(v) != firsts) ctx.fail("first elements of a vector");
            // Reference orders by repeated selection
            std::set<std::pair<S, F>> ref;
            for (auto &p : v) ref.emplace(p.second, -p.first);
            std::vector<F> up, down;
            for (auto &[s, f] : ref) up.push_back(-f);
            down.assign(up.rbegin(), up.rend());
            const std::set<P, CustomPairLessFunctor<P>> lo(v.begin(), v.end());
            const std::set<P, CustomPairGreaterFunctor<P>> hi(v.begin(), v.end());
            if (vector_of_first_elements(lo) != up) ctx.fail("order of a set by less");
            if (vector_of_first_elements(hi) != down) ctx.fail("order of a set by greater");
            std::unordered_map<F, S> map(v.begin(), v.end());
            const std::unordered_set<F> keys(firsts.begin(), firsts.end());
            if (d_keys_to_set(map) != keys) ctx.fail("keys of a map");
            for (auto &p : al) {
              const auto it = std::find_if(v.begin(), v.end(), PairFindFirstBasedFunctor<P>(p.first));
              const auto want = std::find(firsts.begin(), firsts.end(), p.first);
              if (it - v.begin() != want - firsts.begin()) ctx.fail("search by first value");
            }
            if (!v.empty()) {
              const auto it = std::max_element(v.begin(), v.end(), PairSecondBasedLessFunctor<P>());
              for (auto q = v.begin(); q != v.end(); ++q)
                if (q->second > it->second || (q->second == it->second && q < it)) ctx.fail("largest by second value");
            }
          },
          text, 4096};
}
// Long lists: every combination of key and value patterns
mc::Space lists(int n) {
  using P = std::pair<long, double>;
  auto at = [=](u64 i) {
    std::vector<P> v;
    for (long k = 0; k < n; ++k) {
      const long f = i % 5 == 0 ? k : i % 5 == 1 ? n - k : i % 5 == 2 ? k * 7919 % 1009 : i % 5 == 3 ? k % 3 : k * 1000003;
      const double s = i / 5 == 0 ? 1. : i / 5 == 1 ? static_cast<double>(k) : i / 5 == 2 ? -static_cast<double>(k) : i / 5 == 3 ? -1e9 * static_cast<double>(k % 4) : static_cast<double>(k * 31 % 17);
      v.emplace_back(f, s);
    }
    return v;
  };
  return {"lists" + std::to_string(n), "lists of " + std::to_string(n) + " pairs with 5 patterns of first and 5 of second values", 25,
          [=](u64 i, mc::Ctx &ctx) {
            const auto v = at(i);
            ctx.state(mc::mix(mc::mix(19, i), static_cast<u64>(n)));
            ctx.trace();
            ctx.trans(4);
            std::vector<long> firsts;
            std::set<std::pair<double, long>> ref;
            for (auto &p : v) {
              firsts.push_back(p.first);
              ref.emplace(p.second, -p.first);
            }
            if (vector_of_first_elements(v) != firsts) ctx.fail("first elements of a vector");
            std::vector<long> up;
            for (auto &[s, f] : ref) up.push_back(-f);
            const std::vector<long> down(up.rbegin(), up.rend());
            const std::set<P, CustomPairLessFunctor<P>> lo(v.begin(), v.end());
            const std::set<P, CustomPairGreaterFunctor<P>> hi(v.begin(), v.end());
            if (vector_of_first_elements(lo) != up) ctx.fail("order of a set by less");
            if (vector_of_first_elements(hi) != down) ctx.fail("order of a set by greater");
            const std::unordered_map<long, double> map(v.begin(), v.end());
            if (d_keys_to_set(map) != std::unordered_set<long>(firsts.begin(), firsts.end())) ctx.fail("keys of a map");
          },
          [=](u64 i) { return std::to_string(n) + " pairs, patterns " + std::to_string(i % 5) + " and " + std::to_string(i / 5); }, 5};
}
}  // namespace
std::vector<mc::Space> vf::pair_spaces(bool T) {
  std::vector<mc::Space> sp;
  sp.push_back(triples("triples-real", alphabet<long, double>({0, 1, 2, 7}, {-1.5, 0., 1e-300, 0.1, 3., 1e300})));
  sp.push_back(triples("triples-range", alphabet<long, double>({0, 3, 1000000}, {-1e300, -1e18, -1e9, -1e9 + 1, -1e-300, 1e9, 1. + 0x1p-52, 1., 1e18})));
  sp.push_back(triples("triples-keys", alphabet<long, int>({-2147483649L, -1, 255, 256, 4294967296L, 9000000000000000000L}, {-2147483647 - 1, -65536, 65535, 2147483647})));
  sp.push_back(triples("triples-int", alphabet<long, int>({0, 1, 2, 9}, {-2, -1, 0, 1, 2, 2147483647})));
  for (int l = 0; l <= (T ? 6 : 5); ++l) {
    sp.push_back(sequences("sequences-real" + std::to_string(l), alphabet<long, double>({0, 1, 2}, {-1., 0.5, 2.}), l));
    sp.push_back(sequences("sequences-int" + std::to_string(l), alphabet<long, int>({0, 3, 5}, {-1, 0, 4}), l));
  }
  for (int k : {6, 12, 24, 49, 50, 51, 64, 100, 101, 128, 250, 1000}) sp.push_back(lists(k));
  return sp;
}
#endif
