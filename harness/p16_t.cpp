// Whole calls with other index, weight and integer types
#include "p16.hpp"
namespace vf {
#ifdef STUB
Outcome P16_FN(const Mesh &, const Config &) {
  Outcome o;
  o.skipped = true;
  return o;
}
#else
template<class T, class S>
std::vector<T> as(const std::vector<S> &v) {
  return std::vector<T>(v.begin(), v.end());
}
Outcome P16_FN(const Mesh &m, const Config &g) {
  using I = P16_I;
  using R = P16_R;
  using N = P16_N;
  return outcome([&] {
    std::vector<std::vector<R>> c;
    for (const auto &x : m.c) c.push_back(as<R>(x));
    std::vector<I> f2c, lidx = as<I>(g.lidx), lines = as<I>(g.lines);
    std::optional<I> mx;
    if (g.maxc) mx = static_cast<I>(*g.maxc);
    agglomerate_one_level<I, R, N>(
      as<I>(m.row), as<I>(m.col), as<R>(m.w), as<R>(m.vol), c, as<R>(m.prio), as<I>(g.compliant), as<N>(m.nbnd), g.build,
      g.aniso, g.odd, static_cast<R>(g.athr), static_cast<CoMMASeedsPoolT>(g.seed), f2c, lidx, lines, g.corr,
      static_cast<N>(m.dim), static_cast<N>(g.goal), static_cast<N>(g.min), static_cast<N>(g.max),
      static_cast<CoMMAAspectRatioT>(g.ar), static_cast<N>(g.thresh), mx, static_cast<CoMMACellCouplingT>(g.coupling),
      g.dir, static_cast<N>(g.fc_iter), static_cast<CoMMANeighbourhoodT>(g.neigh));
    Result r;
    r.f2c = as<UL>(f2c);
    r.lidx = as<UL>(lidx);
    r.lines = as<UL>(lines);
    return r;
  });
}
#endif
}  // namespace vf
