#include "universe.hpp"
using namespace vf;
int main(int argc, char **argv) {
  const int c_cc = mc::counter("coarse cells"), c_multi = mc::counter("runs with several coarse cells"),
            c_an = mc::counter("runs with anisotropic coarse cells"), c_disc = mc::counter("runs on disconnected graphs");
  UOpt o;
  o.giant = true;
  o.thorough = mc::is_thorough();
  auto f = [=](const Mesh &m, const Config &g, mc::Ctx &ctx) {
    const auto r = call(m, g);
    const auto gr = groups(m, r);
    cover(ctx, m, r, gr);
    ctx.trace();
    ctx.count(c_cc, gr.size());
    if (gr.size() > 1) ctx.count(c_multi);
    if (n_aniso(g, r) > 0) ctx.count(c_an);
    if (!connected(adjacency(m), all_cells(m.n()))) ctx.count(c_disc);
  };
  std::vector<mc::Space> sp;
  for (const auto &u : universe(o)) sp.push_back(as_space(u, f));
  mc::Options opt;
  opt.property = "P01";
  opt.rule = "every call returns and its map is a complete partition into ids 0..n-1, all used";
  opt.states_meaning = "distinct (mesh, set of already agglomerated cells)";
  opt.transitions_meaning = "coarse cells created";
  opt.traces_meaning = "implementation runs whose complete result was judged";
  return mc::drive(argc, argv, opt, sp);
}
