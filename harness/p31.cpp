// TRY: p31_more.cpp
// P31: the queries of the dual graph.
#include "p31.hpp"
using namespace vf;

int main(int argc, char **argv) {
  const bool T = mc::is_thorough();
  const int c_q = mc::counter("cells queried"), c_d = mc::counter("directions"), c_con = mc::counter("connected graphs"), c_dis = mc::counter("disconnected graphs"), c_skip = mc::counter("graphs without the optional queries");
  auto f = [=](const Mesh &m, const Config &, mc::Ctx &ctx) {
    G g(m.n(), m.row, m.col, m.w, m.vol, m.c, m.nbnd, m.dim, all_cells(m.n()));
    ctx.state(hash_mesh(m));
    ctx.trace();
    if (!queries_available()) {
      ctx.count(c_skip);
      for (UL i = 0; i < m.n(); ++i)
        if (g.get_neighbours(i) != std::vector<UL>(m.col.begin() + static_cast<long>(m.row[i]), m.col.begin() + static_cast<long>(m.row[i + 1]))) ctx.fail("neighbours of cell " + std::to_string(i));
      return;
    }
    const auto adj = adjacency(m);
    const bool con = m.n() < 2 || connected(adj, all_cells(m.n()));
    ctx.count(con ? c_con : c_dis);
    for (int k = 0; k < 2; ++k)
      if (is_connected(g) != con) ctx.fail(std::string("graph reported ") + (con ? "disconnected" : "connected") + " at question " + std::to_string(k + 1));
    for (UL i = 0; i < m.n(); ++i) {
      const auto a = ask(g, i);
      ctx.count(c_q);
      ctx.trans();
      auto bad = [&](const std::string &s) { ctx.fail(s + " of cell " + std::to_string(i)); };
      const std::vector<UL> nb(m.col.begin() + static_cast<long>(m.row[i]), m.col.begin() + static_cast<long>(m.row[i + 1]));
      const std::vector<double> w(m.w.begin() + static_cast<long>(m.row[i]), m.w.begin() + static_cast<long>(m.row[i + 1]));
      if (a.neighbours != nb || a.it_neighbours != nb) bad("neighbours " + str(a.neighbours) + str(a.it_neighbours));
      if (a.weights != w || a.it_weights != w) bad("weights " + str(a.weights) + str(a.it_weights));
      if (a.n != static_cast<int>(nb.size())) bad("number of neighbours");
      if (a.bnd != m.nbnd[i]) bad("boundary faces");
      if (a.total != m.nbnd[i] + static_cast<int>(nb.size())) bad("total faces " + std::to_string(a.total));
      if (a.on != (m.nbnd[i] > 0)) bad("boundary flag");
      if (a.cells != m.n()) bad("number of cells asked with the queries");
      double s = 0;
      for (auto x : w) s += x;
      if (!nb.empty() || m.nbnd[i] == 0) {
        const double b = m.nbnd[i] == 0 ? 0. : m.nbnd[i] * s / static_cast<double>(nb.size());
        if (std::fabs(a.bnd_w - b) > 1e-12 * b) bad("estimated boundary weight " + std::to_string(a.bnd_w));
        if (std::fabs(a.total_w - b - s) > 1e-12 * (b + s)) bad("estimated total weight " + std::to_string(a.total_w));
      }
      // large meshes: the neighbours and cells at some distances in the numbering
      std::vector<UL> others = m.n() <= 130 ? all_cells(m.n()) : nb;
      if (m.n() > 130)
        for (UL k : {UL{1}, UL{64}, UL{129}, m.n() / 2, m.n() - 1}) others.push_back((i + k) % m.n());
      for (auto j : others) {
        double n2 = 0;
        for (size_t k = 0; k < m.c[i].size(); ++k) n2 += (m.c[j][k] - m.c[i][k]) * (m.c[j][k] - m.c[i][k]);
        if (n2 == 0) continue;
        std::vector<double> d(m.c[i].size(), 42.);
        const double len = direction(g, i, j, d);
        ctx.count(c_d);
        ctx.trans();
        if (std::fabs(len - std::sqrt(n2)) > 1e-12 * len) bad("distance to cell " + std::to_string(j) + " " + std::to_string(len));
        for (size_t k = 0; k < d.size(); ++k)
          if (std::fabs(d[k] - (m.c[j][k] - m.c[i][k]) / std::sqrt(n2)) > 1e-12) bad("direction to cell " + std::to_string(j) + " " + str(d));
      }
    }
  };
  std::vector<mc::Space> sp;
  for (int n = 1; n <= (T ? 6 : 5); ++n) {
    const Radix r{n_graphs(n), kGraphPatterns};
    sp.push_back(as_space({"graphs" + std::to_string(n), "all labelled graphs on " + std::to_string(n) + " nodes x 10 attribute patterns", r.total(), [=](u64 i, Mesh &m, Config &) {
                             const auto d = r.decode(i);
                             m = small_graph(n, d[0], d[1]);
                           }}, f, 64));
  }
  {
    const Radix r{511, kGeo, 4, 2, 2};
    sp.push_back(as_space({"sub3x3", "all cell subsets of a 3x3 grid x 5 geometries x 4 boundary counts x with/without self entries x 2D/3D", r.total(), [=](u64 i, Mesh &m, Config &) {
                             const auto d = r.decode(i);
                             m = grid(3, 3, 1, static_cast<u64>(d[0] + 1), d[1], d[1], d[2], d[3], d[4]);
                           }}, f, 64));
    sp.push_back(as_space({"big", "12 meshes of up to 64 cells", kBig, [=](u64 i, Mesh &m, Config &) { m = big_mesh(static_cast<int>(i)); }}, f, 1));
  }
  {
    const Radix r{kScaleShapes, kScaleSizes.size(), kScaleAttrs, 2};
    sp.push_back(as_space({"scale", std::string(kScaleWhat) + " x 6 attribute patterns x 2D/3D", r.total(), [=](u64 i, Mesh &m, Config &) {
                             const auto d = r.decode(i);
                             m = scale_mesh(d[0], kScaleSizes[d[1]], d[2], d[3] ? 3 : 2);
                           }}, f, 8));
    const Radix q{5, 2};
    sp.push_back(as_space({"giant", "path, path numbered by a stride, ring, binary tree and grid of 20000 and 300000 cells", q.total(), [=](u64 i, Mesh &m, Config &) {
                             const auto d = q.decode(i);
                             static const int shapes[5] = {0, 1, 2, 6, 9};
                             m = scale_mesh(shapes[d[0]], d[1] ? 300000 : 20000, 1);
                           }}, f, 1));
  }
  mc::Options opt;
  opt.property = "P31";
  opt.rule = "answers equal the definitions of the statement";
  opt.states_meaning = "distinct graphs";
  opt.transitions_meaning = "queries";
  opt.traces_meaning = "graphs on which every query was compared";
  return mc::drive(argc, argv, opt, sp);
}
