// Reference model of the pools of seeds.
#pragma once
#include "universe.hpp"

namespace vf {

// Reference model: tickets (cell, level) in order of insertion
struct Pool {
  const std::vector<int> &nb;
  const std::vector<double> &pr;
  bool neigh, one;
  struct Ticket { UL cell; int lvl; };
  std::vector<Ticket> t;
  std::optional<int> cur;
  std::vector<UL> ranked(std::vector<UL> v) const {
    std::sort(v.begin(), v.end(), [&](UL a, UL b) { return pr[a] != pr[b] ? pr[a] > pr[b] : a < b; });
    return v;
  }
  void initialize() {
    if (!cur) {
      cur = 0;
      for (auto b : nb) cur = std::max(*cur, b);
    }
    std::vector<UL> v;
    for (UL i = 0; i < nb.size(); ++i)
      if (nb[i] >= *cur) v.push_back(i);
    v = ranked(v);
    if (one) v.resize(1);
    for (auto x : v) t.push_back({x, *cur});
  }
  std::optional<UL> take(int lvl, const std::vector<bool> &agg) {
    for (size_t k = 0; k < t.size(); ++k)
      if (t[k].lvl == lvl && !agg[t[k].cell]) {
        const UL x = t[k].cell;
        t.erase(t.begin() + static_cast<long>(k));
        return x;
      }
    return std::nullopt;
  }
  std::optional<int> highest(const std::vector<bool> &agg) const {
    std::optional<int> h;
    for (UL i = 0; i < nb.size(); ++i)
      if (!agg[i] && (!h || nb[i] > *h)) h = nb[i];
    return h;
  }
  std::optional<UL> choose(const std::vector<bool> &agg) {
    if (!cur) return std::nullopt;
    if (neigh)
      for (int l = *cur; l >= 0; --l)
        if (auto s = take(l, agg)) {
          cur = l;
          return s;
        }
    const auto h = highest(agg);
    cur = h;
    if (!h) return std::nullopt;
    if (auto s = take(*h, agg)) return s;
    std::vector<UL> v;
    for (UL i = 0; i < nb.size(); ++i)
      if (!agg[i] && nb[i] == *h) v.push_back(i);
    for (auto x : ranked(v)) t.push_back({x, *h});
    return take(*h, agg);
  }
  void insert(const std::vector<UL> &v) {
    for (auto x : v) t.push_back({x, neigh && cur ? std::min(*cur, nb[x]) : nb[x]});
    if (!neigh)
      for (auto x : v)
        if (!cur || nb[x] > *cur) cur = nb[x];
  }
  void insert_group(const std::vector<UL> &v) { insert(ranked_by_level(v)); }
  std::vector<UL> ranked_by_level(const std::vector<UL> &v) const {
    auto w = ranked(v);
    std::stable_sort(w.begin(), w.end(), [&](UL a, UL b) { return nb[a] > nb[b]; });
    return w;
  }
};

}  // namespace vf
