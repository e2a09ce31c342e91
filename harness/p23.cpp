#include "scale.hpp"
using namespace vf;

// Neighbourhood-based wall distance: all directed/undirected graphs x all walls
template<class Dist>
static void judge(const Mesh &m, const std::vector<UL> &wall, int junk, mc::Ctx &ctx, int c_far, int c_max) {
  const size_t n = m.n();
  std::vector<Dist> out;
  if (junk == 1) out.assign(n, static_cast<Dist>(1));
  if (junk == 2) out.assign(n + 3, static_cast<Dist>(0));
  if (junk == 3) out.assign(1, static_cast<Dist>(7));
  if (junk > 3) out.assign(n, junk == 4 ? static_cast<Dist>(-2) : junk == 5 ? static_cast<Dist>(-1) : std::numeric_limits<Dist>::max());
  if (junk == 7)
    for (size_t k = 0; k < n; ++k) out[k] = static_cast<Dist>(k % 3 == 0 ? -2 : k % 3 == 1 ? 0 : 3);
  const auto row = m.row, col = m.col;
  const auto w0 = wall;
  compute_neighbourhood_based_wall_distance<UL, Dist>(m.row, m.col, wall, out);
  if (row != m.row || col != m.col || w0 != wall) ctx.fail("an input was modified");
  if (out.size() != n) ctx.fail("output has " + std::to_string(out.size()) + " entries");
  // Oracle: relaxation to the fixed point (no queue; sweeps in both directions)
  std::vector<long> d(n, -1);
  for (auto x : wall) d[x] = 0;
  bool ch = true;
  for (bool up = true; ch; up = !up) {
    ch = false;
    for (UL q = 0; q < n; ++q) {
      const UL i = up ? q : n - 1 - q;
      if (d[i] >= 0)
        for (UL k = m.row[i]; k < m.row[i + 1]; ++k) {
          const UL j = m.col[k];
          if (d[j] < 0 || d[j] > d[i] + 1) {
            d[j] = d[i] + 1;
            ch = true;
          }
        }
    }
  }
  long mx = -1;
  for (UL i = 0; i < n; ++i) {
    mx = std::max(mx, d[i]);
    const bool ok = d[i] < 0 ? out[i] < Dist{0} : out[i] == static_cast<Dist>(d[i]);
    if (!ok) ctx.fail("cell " + std::to_string(i) + ": distance " + std::to_string(out[i]) + ", expected " + (d[i] < 0 ? std::string("negative") : std::to_string(d[i])) + "; wall=" + str(wall));
    if (d[i] < 0) ctx.count(c_far);
  }
  if (mx >= 3) ctx.count(c_max);
  ctx.state(mc::hash_seq(hash_mesh(m), d));
  ctx.trans(n);
  ctx.trace();
}

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_far = mc::counter("unreachable cells"), c_max = mc::counter("cases with a distance of at least 3");
  std::vector<mc::Space> sp;
  auto add = [&](std::string name, std::string what, u64 size, std::function<void(u64, Mesh &, std::vector<UL> &, int &)> mk, u64 chunk = 2048) {
    mc::Space s;
    s.name = name;
    s.what = what;
    s.size = size;
    s.chunk = chunk;
    s.run = [=](u64 i, mc::Ctx &ctx) {
      Mesh m;
      std::vector<UL> wall;
      int junk = 0;
      mk(i, m, wall, junk);
      judge<double>(m, wall, junk, ctx, c_far, c_max);
      judge<int>(m, wall, junk, ctx, c_far, c_max);
      judge<long>(m, wall, junk, ctx, c_far, c_max);
      judge<float>(m, wall, junk, ctx, c_far, c_max);
    };
    s.describe = [=](u64 i) {
      Mesh m;
      std::vector<UL> wall;
      int junk = 0;
      mk(i, m, wall, junk);
      return "row=" + str(m.row) + " col=" + str(m.col) + " wall=" + str(wall) + " previous output kind " + std::to_string(junk);
    };
    sp.push_back(s);
  };
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    const Radix r{n_graphs(n), u64{1} << n, n == 6 ? 1u : 8u, n == 6 ? 1u : 2u};
    add("graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x all wall subsets (the empty one too) x 8 previous contents of the output x wall listed upwards/downwards with a repetition", r.total(), [=](u64 i, Mesh &m, std::vector<UL> &wall, int &junk) {
      const auto d = r.decode(i);
      m = small_graph(n, d[0], 0);
      wall = subset_of(d[1], n);
      if (d[3]) {
        std::reverse(wall.begin(), wall.end());
        if (!wall.empty()) wall.push_back(wall[0]);
      }
      junk = n == 6 ? d[1] % 8 : d[2];
    });
  }
  {
    const Radix r{511, 512, 2};
    add("sub3x3", "all cell subsets of a 3x3 grid x all wall subsets (cut to the cells present) x with/without self entries", r.total(), [=](u64 i, Mesh &m, std::vector<UL> &wall, int &junk) {
      const auto d = r.decode(i);
      m = grid(3, 3, 1, d[0] + 1, 0, 0, 0, d[2]);
      wall = subset_of(d[1] % (1 << m.n()), m.n());
      junk = d[0] % 8;
    });
  }
  {
    const Radix r{kBig, 64, 64};
    add("big", "12 meshes of up to 64 cells x all pairs of wall cells", r.total(), [=](u64 i, Mesh &m, std::vector<UL> &wall, int &junk) {
      const auto d = r.decode(i);
      m = big_mesh(d[0]);
      const size_t n = m.n();
      wall = {d[1] % n, d[2] % n};
      junk = d[1] % 8;
    });
  }
  {
    const Radix r{40, 40, 3};
    add("chain", "chains of 1..40 cells x every wall cell x listed order of neighbours (3)", r.total(), [=](u64 i, Mesh &m, std::vector<UL> &wall, int &junk) {
      const auto d = r.decode(i);
      const UL n = d[0] + 1;
      std::vector<std::vector<UL>> adj(n);
      for (UL k = 0; k + 1 < n; ++k) {
        adj[k].push_back(k + 1);
        adj[k + 1].push_back(k);
      }
      if (d[2] == 1)
        for (auto &a : adj) std::reverse(a.begin(), a.end());
      if (d[2] == 2) {  // ring
        if (n > 2) {
          adj[0].push_back(n - 1);
          adj[n - 1].push_back(0);
        }
      }
      set_graph(m, adj, [](UL, UL) { return 1.; });
      m.vol.assign(n, 1.);
      wall = {d[1] % n};
      junk = d[1] % 8;
    });
  }
  {
    const Radix r{kScaleShapes, kScaleSizes.size(), 6};
    add("scale", std::string(kScaleWhat) + " x wall: first cell, last, middle, first and last, every 50th, second half of the numbers", r.total(), [=](u64 i, Mesh &m, std::vector<UL> &wall, int &junk) {
      const auto d = r.decode(i);
      const UL n = kScaleSizes[d[1]];
      m = scale_mesh(d[0], n, 0);
      switch (d[2]) {
        case 0: wall = {0}; break;
        case 1: wall = {n - 1}; break;
        case 2: wall = {n / 2}; break;
        case 3: wall = {0, n - 1}; break;
        case 4: for (UL k = 0; k < n; k += 50) wall.push_back(k); break;
        default: for (UL k = n; k-- > n / 2;) wall.push_back(k);
      }
      junk = d[1] % 8;
    }, 16);
  }
  {
    const Radix r{4, 3, 2};
    add("giant", "path, ring, binary tree and grid of 1000, 40000 and 140000 cells x wall in the first cell or in every 1000th", r.total(), [=](u64 i, Mesh &m, std::vector<UL> &wall, int &junk) {
      const auto d = r.decode(i);
      static const int shapes[4] = {0, 2, 6, 9};
      static const UL sizes[3] = {1000, 40000, 140000};
      const UL n = sizes[d[1]];
      m = scale_mesh(shapes[d[0]], n, 0);
      if (d[2])
        for (UL k = 0; k < n; k += 1000) wall.push_back(k);
      else
        wall = {0};
      junk = d[0] + 1;
    }, 1);
  }
  mc::Options opt;
  opt.property = "P23";
  opt.rule = "the distances equal the fixed point of the relaxation d(j) <= d(i)+1 from the wall; negative where no wall cell is reachable";
  opt.states_meaning = "distinct (graph, distance field) pairs";
  opt.transitions_meaning = "cell distances compared";
  opt.traces_meaning = "calls compared with the fixed point";
  return mc::drive(argc, argv, opt, sp);
}
