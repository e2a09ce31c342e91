// Reference definitions of the aspect ratios and nondeterministic reference
// model of the growth of one isotropic coarse cell.
#pragma once
#include "mesh.hpp"

#include <map>
#include <set>

namespace vf {

struct Geo {
  const Mesh &m;
  std::vector<std::map<UL, double>> w;  // without self entries
  explicit Geo(const Mesh &mm) : m(mm), w(mm.n()) {
    for (UL i = 0; i < m.n(); ++i)
      for (UL k = m.row[i]; k < m.row[i + 1]; ++k)
        if (m.col[k] != i) w[i][m.col[k]] = m.w[k];
  }
  double d2(const std::vector<double> &a, const std::vector<double> &b) const {
    double s = 0;
    for (size_t k = 0; k < a.size(); ++k) s += (a[k] - b[k]) * (a[k] - b[k]);
    return s;
  }
  // Sum of the face weights of a cell; boundary faces count as average ones
  double total(UL i) const {
    double s = 0;
    for (const auto &[j, x] : w[i]) s += x;
    if (m.nbnd[i] > 0) s += m.nbnd[i] * s / static_cast<double>(w[i].size());
    return s;
  }
};

struct Feat {
  double measure = 0, ext = 0, in = 0, diam2 = 0, edge2 = -1;
  int faces = 0;
  std::vector<double> sum;
  std::map<UL, int> outer;  // faces of each member not shared with another one
};

inline Feat features(const Geo &q, const std::vector<UL> &set) {
  Feat f;
  const Mesh &m = q.m;
  f.sum.assign(m.c[set[0]].size(), 0.);
  for (size_t a = 0; a < set.size(); ++a) {
    const UL i = set[a];
    f.measure += m.vol[i];
    f.ext += q.total(i);
    f.outer[i] = static_cast<int>(q.w[i].size()) + m.nbnd[i];
    for (size_t k = 0; k < f.sum.size(); ++k) f.sum[k] += m.vol[i] * m.c[i][k];
  }
  for (size_t a = 0; a < set.size(); ++a)
    for (size_t b = a + 1; b < set.size(); ++b) {
      const UL i = set[a], j = set[b];
      const double d = q.d2(m.c[i], m.c[j]);
      f.diam2 = std::max(f.diam2, d);
      f.edge2 = f.edge2 < 0 ? d : std::min(f.edge2, d);
      const auto it = q.w[i].find(j);
      if (it != q.w[i].end()) {
        ++f.faces;
        f.in += it->second;
        f.ext -= 2 * it->second;
        --f.outer[i];
        --f.outer[j];
      }
    }
  return f;
}

inline double over_radius(double x2, double measure, int dim) {
  return dim == 2 ? x2 / measure : x2 * x2 * x2 / (measure * measure);
}

// Aspect ratio of a set (powers as documented: squares in 2D, sixth powers of
// lengths in 3D)
inline double aspect_ratio(const Geo &q, const std::vector<UL> &set, int kind) {
  const Mesh &m = q.m;
  const Feat f = features(q, set);
  switch (kind) {
    case 0: return over_radius(f.diam2, f.measure, m.dim);
    case 1: return set.size() == 2 ? f.diam2 : f.diam2 / f.edge2;
    case 2: return f.diam2;
    case 3: return 1. / f.measure;
    case 4: return 1. / f.in;
    case 5: return m.dim == 2 ? f.ext * f.ext / f.measure : f.ext * f.ext * f.ext / (f.measure * f.measure);
    case 6: return f.ext;
    case 9: return f.ext / f.measure;
    default: break;
  }
  auto b = f.sum;
  for (auto &x : b) x /= f.measure;
  if (kind == 7) {
    double mx = 0;
    for (auto i : set) mx = std::max(mx, q.d2(b, m.c[i]));
    return over_radius(mx, f.measure, m.dim);
  }
  double mx = 0, mn = 1e300;
  for (auto i : set)
    if (f.outer.at(i) > 0) {
      const double d = std::sqrt(q.d2(b, m.c[i]));
      if (d > 1e-12) {
        mx = std::max(mx, d);
        mn = std::min(mn, d);
      }
    }
  return mx / mn;
}

inline bool near(double a, double b, double tol = 1e-9) {
  if (a == b) return true;
  return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)) + 1e-290;
}

// Cells reachable through free cells with their distance, within `order`
// steps, more while fewer than max were found
inline std::map<UL, int> reach(const std::vector<std::vector<UL>> &adj, const std::vector<char> &free, UL seed, int order, int max) {
  std::map<UL, int> d;
  d[seed] = 0;
  std::vector<UL> last{seed};
  for (int o = 1; o <= order || static_cast<int>(d.size()) < max; ++o) {
    std::vector<UL> next;
    for (auto x : last)
      for (auto y : adj[x])
        if (free[y] && !d.count(y)) {
          d[y] = o;
          next.push_back(y);
        }
    if (next.empty()) break;
    last = next;
  }
  d.erase(seed);
  return d;
}

// Replays the growth of coarse cell `target` starting from `seed`
struct Growth {
  const Geo &q;
  const std::vector<std::vector<UL>> &adj;
  const Config &g;
  std::set<UL> target;
  std::map<UL, int> dist;
  UL seed;
  int max_ind = 0, target_compact = 0;
  bool exact_size = false;  // also decide between equally compact sizes
  std::vector<UL> seq;
  std::set<std::vector<UL>> dead;
  u64 steps = 0, decided = 0;

  int compact(const std::vector<UL> &s) const {
    if (s.size() < 2) return 0;
    int mn = 1 << 30;
    for (auto x : s) {
      int c = 0;
      for (auto y : adj[x]) c += std::find(s.begin(), s.end(), y) != s.end();
      mn = std::min(mn, c);
    }
    return mn;
  }
  bool has(UL x) const { return std::find(seq.begin(), seq.end(), x) != seq.end(); }
  std::vector<UL> candidates() const {
    std::set<UL> c;
    auto level = [&](size_t i) {
      std::set<UL> s;
      for (auto y : adj[seq[i]])
        if (dist.count(y) && !has(y)) {
          // already inside when the level was made?
          s.insert(y);
        }
      return s;
    };
    if (g.neigh == 0 || static_cast<int>(seq.size()) <= q.m.dim) {
      for (size_t i = 0; i < seq.size(); ++i) {
        const auto s = level(i);
        c.insert(s.begin(), s.end());
      }
    } else {
      size_t young = seq.size(), old = 0;  // [old, young)
      while (c.empty() && old < young) {
        c = level(--young);
        if (c.empty() && old < young) c = level(old++);
      }
    }
    return {c.begin(), c.end()};
  }
  int shared(UL c) const {
    int s = 0;
    for (auto y : adj[c]) s += has(y);
    return s;
  }
  // Look-ahead k > 1: the score of a candidate is the larger of the faces it
  // shares and of those shared by the cell that would be chosen after it with
  // look-ahead k - 1; highest score, then closest to the seed, then, unless the
  // following cell shares exactly as many, smallest aspect ratio. Where several
  // choices are equal, the scores are intervals.
  struct Score {
    UL c;
    int own, lo, hi;
    bool by_ar = false;
  };
  std::vector<Score> preferred(int k) {
    ++steps;
    std::vector<Score> all, out;
    for (auto c : candidates()) {
      Score s{c, shared(c), 0, 0};
      s.lo = s.hi = s.own;
      s.by_ar = k > 1;
      if (k > 1) {
        seq.push_back(c);
        const auto inner = preferred(k - 1);
        seq.pop_back();
        int lo = 1 << 20, hi = 0;
        for (const auto &x : inner) {
          lo = std::min(lo, x.own);
          hi = std::max(hi, x.own);
        }
        if (!inner.empty()) {
          s.lo = std::max(s.own, lo);
          s.hi = std::max(s.own, hi);
          s.by_ar = hi < s.own || lo > s.own;
        } else {
          s.by_ar = s.own > 0;
        }
      }
      all.push_back(s);
    }
    for (const auto &s : all) {
      bool ok = true;
      for (const auto &o : all)
        if (o.lo > s.hi || (o.lo >= s.hi && dist.at(o.c) < dist.at(s.c))) ok = false;
      if (ok) out.push_back(s);
    }
    if (k == 1 || out.size() < 2) return out;
    std::vector<double> ar(out.size(), -1.);
    for (size_t i = 0; i < out.size(); ++i)
      if (out[i].by_ar && out[i].lo == out[i].hi) {
        auto set = seq;
        set.push_back(out[i].c);
        ar[i] = aspect_ratio(q, set, g.ar);
      }
    std::vector<Score> kept;
    for (size_t i = 0; i < out.size(); ++i) {
      bool ok = true;
      for (size_t j = 0; j < out.size() && ok && ar[i] >= 0.; ++j)
        if (ar[j] >= 0. && out[i].hi == out[j].lo && dist.at(out[i].c) == dist.at(out[j].c) && ar[j] < ar[i] && !near(ar[i], ar[j])) ok = false;
      if (ok) kept.push_back(out[i]);
    }
    return kept;
  }
  // Of the sizes between minimum and maximum that were passed through: most
  // compact, then fewest (external faces - cells), then the goal, then largest
  size_t kept_size() const {
    std::vector<UL> s;
    int faces = 0, best_c = -1, best_f = 0;
    size_t best = 0;
    for (auto x : seq) {
      faces += static_cast<int>(adj[x].size()) + q.m.nbnd[x];
      for (auto y : adj[x])
        if (std::find(s.begin(), s.end(), y) != s.end()) faces -= 2;
      s.push_back(x);
      const int n = static_cast<int>(s.size());
      if (n < 2 || (n < g.min && n < max_ind)) continue;
      const int c = compact(s), f = faces - n;
      if (c > best_c || (c == best_c && (f < best_f || (f == best_f && static_cast<int>(best) != g.goal)))) {
        best_c = c;
        best_f = f;
        best = s.size();
      }
    }
    return best;
  }
  bool run() {
    ++steps;
    const size_t n = seq.size();
    if (n == target.size()) target_compact = compact(seq);
    if (n > target.size() && compact(seq) > target_compact) return false;
    if (n < target.size() && static_cast<int>(n) >= g.min && compact(seq) > compact({target.begin(), target.end()})) return false;
    if (static_cast<int>(n) == max_ind) return !exact_size || kept_size() == target.size();
    auto key = seq;
    if (g.neigh == 0 && !exact_size) std::sort(key.begin(), key.end());
    if (dead.count(key)) return false;
    const int ahead = std::min(max_ind - static_cast<int>(n), g.fc_iter);
    if (ahead > 1) {
      const auto pref = preferred(ahead);
      if (pref.size() == 1) ++decided;
      for (const auto &s : pref) {
        if (n < target.size() && !target.count(s.c)) continue;
        seq.push_back(s.c);
        const bool ok = run();
        seq.pop_back();
        if (ok) return true;
      }
      dead.insert(key);
      return false;
    }
    const auto cand = candidates();
    int faces = -1, order = 1 << 30;
    for (auto c : cand) {
      int s = 0;
      for (auto y : adj[c]) s += has(y);
      if (s > faces || (s == faces && dist.at(c) < order)) {
        faces = s;
        order = dist.at(c);
      }
    }
    std::vector<std::pair<UL, double>> best;
    for (auto c : cand) {
      int s = 0;
      for (auto y : adj[c]) s += has(y);
      if (s != faces || dist.at(c) != order) continue;
      auto set = seq;
      set.push_back(c);
      best.emplace_back(c, aspect_ratio(q, set, g.ar));
    }
    double mn = 1e301;
    for (const auto &b : best) mn = std::min(mn, b.second);
    for (const auto &b : best)
      if (b.second == mn || near(b.second, mn) || best.size() == 1) {
        if (n < target.size() && !target.count(b.first)) continue;
        seq.push_back(b.first);
        const bool ok = run();
        seq.pop_back();
        if (ok) return true;
      }
    dead.insert(key);
    return false;
  }
  // Whether the model explains `target`
  bool explains(const std::vector<char> &free) {
    const int dim = q.m.dim;
    dist = reach(adj, free, seed, std::max(dim == 2 ? 2 : 3, g.max / dim), g.max);
    if (dist.empty()) return target.size() == 1;
    if (static_cast<int>(dist.size()) + 1 < g.goal) {
      if (target.size() != dist.size() + 1) return false;
      for (const auto &d : dist)
        if (!target.count(d.first)) return false;
      return true;
    }
    max_ind = std::min(g.max, static_cast<int>(dist.size()) + 1);
    if (static_cast<int>(target.size()) > max_ind || static_cast<int>(target.size()) < std::min(g.min, max_ind)) return false;
    seq = {seed};
    return run();
  }
};

}  // namespace vf
