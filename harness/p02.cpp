#include "corrections.hpp"
using namespace vf;
int main(int argc, char **argv) {
  const int c_cc = mc::counter("coarse cells of two or more cells"), c_an = mc::counter("anisotropic coarse cells"),
            c_corr = mc::counter("runs with correction");
  UOpt o;
  o.giant = true;
  o.thorough = mc::is_thorough();
  o.corr = {0, 1, 2, 4};
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const auto r = call(m, g);
    const auto gr = groups(m, r);
    const auto adj = adjacency(m);
    for (size_t k = 0; k < gr.size(); ++k) {
      if (!connected(adj, gr[k])) ctx.fail("coarse cell " + std::to_string(k) + " = " + str(gr[k]) + " is not connected; " + show(r));
      if (gr[k].size() > 1) ctx.count(c_cc);
    }
    cover(ctx, m, r, gr);
    ctx.trace();
    ctx.count(c_an, n_aniso(g, r));
    if (g.corr) ctx.count(c_corr);
  };
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o)) sp.push_back(as_space(u, f));
  auto judge = [=](const Mesh &m, const Result &, const Result &r, size_t, size_t, mc::Ctx &ctx) {
    const auto gr = groups(m, r);
    const auto adj = adjacency(m);
    for (size_t k = 0; k < gr.size(); ++k) {
      if (!connected(adj, gr[k])) ctx.fail("coarse cell " + std::to_string(k) + " = " + str(gr[k]) + " is not connected; " + show(r));
      if (gr[k].size() > 1) ctx.count(c_cc);
    }
    cover(ctx, m, r, gr);
    ctx.trace();
    ctx.count(c_corr);
  };
  sp.push_back(partition_space(5, labelled_graphs(5), 2, 3, judge));
  if (o.thorough) sp.push_back(partition_space(6, kGraphs6, 1, 3, judge));
  mc::Options opt;
  opt.property = "P02";
  opt.rule = "the fine cells of each coarse cell induce a connected subgraph";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs whose complete result was judged";
  return mc::drive(argc, argv, opt, sp);
}
