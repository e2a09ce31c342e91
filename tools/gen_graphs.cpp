// Writes harness/graphs.hpp: one representative of every graph on n <= 8 nodes up to
// isomorphism, as adjacency bits in the order used by vf::graph_adj (pairs (0,1), (0,2), ...).
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <map>
#include <numeric>
#include <set>
#include <vector>
using u32 = std::uint32_t;
using Adj = std::vector<u32>;
static u32 pack(const Adj &a, const std::vector<int> &p) {
  u32 b = 0;
  int k = 0;
  const int n = static_cast<int>(a.size());
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j, ++k)
      if (a[p[i]] >> p[j] & 1) b |= u32{1} << k;
  return b;
}
static Adj unpack(int n, u32 b) {
  Adj a(n, 0);
  int k = 0;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j, ++k)
      if (b >> k & 1) a[i] |= u32{1} << j, a[j] |= u32{1} << i;
  return a;
}
static u32 canon(const Adj &a) {
  const int n = static_cast<int>(a.size());
  std::vector<long> col(n);
  for (int i = 0; i < n; ++i) col[i] = __builtin_popcount(a[i]);
  for (int it = 0; it < 3; ++it) {
    std::vector<std::pair<std::pair<long, std::vector<long>>, int>> s(n);
    for (int i = 0; i < n; ++i) {
      std::vector<long> v;
      for (int j = 0; j < n; ++j)
        if (a[i] >> j & 1) v.push_back(col[j]);
      std::sort(v.begin(), v.end());
      s[i] = {{col[i], v}, i};
    }
    std::sort(s.begin(), s.end());
    long c = 0;
    std::vector<long> nc(n);
    for (int i = 0; i < n; ++i) {
      if (i && s[i].first != s[i - 1].first) c = i;
      nc[s[i].second] = c;
    }
    col = nc;
  }
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  std::sort(p.begin(), p.end(), [&](int x, int y) { return col[x] != col[y] ? col[x] < col[y] : x < y; });
  u32 best = ~u32{0};
  // permutations within the colour classes
  std::vector<std::pair<int, int>> cls;
  for (int i = 0; i < n;) {
    int j = i;
    while (j < n && col[p[j]] == col[p[i]]) ++j;
    cls.push_back({i, j});
    i = j;
  }
  for (;;) {
    best = std::min(best, pack(a, p));
    size_t k = 0;
    for (; k < cls.size(); ++k)
      if (std::next_permutation(p.begin() + cls[k].first, p.begin() + cls[k].second)) break;
    if (k == cls.size()) break;
  }
  return best;
}
int main() {
  std::vector<u32> reps{0};
  std::puts("// Generated by tools/gen_graphs.cpp: all graphs on n nodes up to isomorphism (n = 6, 7, 8)\n#pragma once\n#include <cstdint>\n#include <vector>\nnamespace vf {");
  for (int n = 2; n <= 8; ++n) {
    std::set<u32> next;
    for (auto r : reps) {
      const auto base = unpack(n - 1, r);
      for (u32 s = 0; s < (u32{1} << (n - 1)); ++s) {
        Adj a = base;
        a.push_back(s);
        for (int j = 0; j < n - 1; ++j)
          if (s >> j & 1) a[j] |= u32{1} << (n - 1);
        next.insert(canon(a));
      }
    }
    reps.assign(next.begin(), next.end());
    std::fprintf(stderr, "%d: %zu\n", n, reps.size());
    if (n < 6) continue;
    std::printf("inline const std::vector<std::uint32_t> kGraphs%d{", n);
    for (size_t i = 0; i < reps.size(); ++i) std::printf("%s%s%u", i ? "," : "", i % 16 ? "" : "\n", reps[i]);
    std::puts("};");
  }
  std::puts("}  // namespace vf");
}
