#include "p32.hpp"
#ifdef STUB
std::vector<mc::Space> vf::vector_spaces(bool) { return {}; }
#else
#include <cmath>
#include "CoMMA/Util.h"
using namespace comma;
using mc::u64;
namespace {
template<class T>
mc::Space pairs(const std::string &name, int dim, const std::vector<T> &al) {
  const u64 k = al.size();
  u64 n = 1;
  for (int l = 0; l < 2 * dim; ++l) n *= k;
  auto at = [=](u64 i) {
    std::vector<T> v;
    for (int l = 0; l < 2 * dim; ++l, i /= k) v.push_back(al[i % k]);
    return v;
  };
  return {name, "all pairs of vectors over " + std::to_string(k) + " values", n,
          [=](u64 i, mc::Ctx &ctx) {
            const auto v = at(i);
            ctx.state(mc::mix(mc::mix(7, i), mc::hash_seq(1, name)));
            ctx.trace();
            ctx.trans(4);
            const std::vector<T> a(v.begin(), v.begin() + dim), b(v.begin() + dim, v.end());
            double dot = 0, sq = 0, abs = 0;
            for (int x = 0; x < dim; ++x) {
              dot += static_cast<double>(a[x]) * b[x];
              abs += std::fabs(static_cast<double>(a[x]) * b[x]);
              sq += (static_cast<double>(b[x]) - a[x]) * (static_cast<double>(b[x]) - a[x]);
            }
            const double eps = sizeof(T) == 4 ? 1e-6 : 1e-14;
            if (std::fabs(dot_product<T>(a, b) - dot) > eps * abs) ctx.fail("dot product");
            if (std::fabs(squared_euclidean_distance<T>(a, b) - sq) > eps * sq) ctx.fail("squared distance");
            std::vector<T> d(dim, T{42});
            if (sq == 0) return;
            const double len = get_direction<T>(a, b, d);
            if (std::fabs(len - std::sqrt(sq)) > eps * len) ctx.fail("length of the direction");
            for (int x = 0; x < dim; ++x)
              if (std::fabs(d[x] - (b[x] - a[x]) / std::sqrt(sq)) > eps) ctx.fail("direction");
          },
          [=](u64 i) {
            std::string s;
            for (auto x : at(i)) s += std::to_string(x) + " ";
            return s;
          },
          4096};
}
}  // namespace
std::vector<mc::Space> vf::vector_spaces(bool T) {
  std::vector<mc::Space> sp;
  const std::vector<double> al = T ? std::vector<double>{-4., -1.5, -1., 0., 0.25, 1., 2., 8., 1024.} : std::vector<double>{-4., -1., 0., 0.25, 1., 2., 1024.};
  const std::vector<float> fl(al.begin(), al.end());
  for (int d = 1; d <= 3; ++d) {
    sp.push_back(pairs<double>("vectors" + std::to_string(d), d, al));
    sp.push_back(pairs<double>("ranges" + std::to_string(d), d, {-1e100, -3e9, -1e-9, 0., 1e-100, 5e-7, 2e8, 1e17}));
    sp.push_back(pairs<float>("vectors-float" + std::to_string(d), d, fl));
  }
  // Long vectors: one entry apart from the others
  sp.push_back({"long", "vectors of 4 to 40 entries, every position of one larger entry x 4 sizes of it", 37 * 40 * 4,
                [](u64 i, mc::Ctx &ctx) {
                  const u64 n = 4 + i / 160, at = i / 4 % 40;
                  if (at >= n) return;
                  static const double big[4] = {17., -3., 1e6, 0.};
                  ctx.state(mc::mix(13, i));
                  ctx.trace();
                  ctx.trans(3);
                  std::vector<double> a(n), b(n), d(n);
                  double dot = 0, sq = 0;
                  for (u64 k = 0; k < n; ++k) {
                    a[k] = k == at ? big[i % 4] : static_cast<double>(k % 5) + 1;
                    b[k] = static_cast<double>(k * k % 7) - 2;
                    dot += a[k] * b[k];
                    sq += (b[k] - a[k]) * (b[k] - a[k]);
                  }
                  if (dot_product<double>(a, b) != dot) ctx.fail("dot product");
                  if (std::fabs(squared_euclidean_distance<double>(a, b) - sq) > 1e-14 * sq) ctx.fail("squared distance");
                  const double len = get_direction<double>(a, b, d);
                  if (std::fabs(len - std::sqrt(sq)) > 1e-14 * len) ctx.fail("length of the direction");
                  for (u64 k = 0; k < n; ++k)
                    if (std::fabs(d[k] - (b[k] - a[k]) / std::sqrt(sq)) > 1e-14) ctx.fail("direction");
                },
                [](u64 i) { return std::to_string(4 + i / 160) + " entries, entry " + std::to_string(i / 4 % 40) + " of size " + std::to_string(i % 4); }, 512});
  // Angles: every hundredth of a degree except at the limit itself
  sp.push_back({"angles", "every hundredth of a degree between two unit vectors", 36001,
                [](u64 i, mc::Ctx &ctx) {
                  const double deg = static_cast<double>(i) / 100. - 180.;
                  ctx.state(mc::mix(11, i));
                  ctx.trace();
                  ctx.trans();
                  if (i == 0) {
                    const double t = deviate_thresh;
                    if (dot_deviate(t) || dot_deviate(-t) || !dot_deviate(std::nextafter(t, 0.)) || !dot_deviate(-std::nextafter(t, 0.))) ctx.fail("threshold itself");
                    for (double x : {0., -0., 1e-300, -1e-300, 1e-17, -1e-17})
                      if (!dot_deviate(x)) ctx.fail("orthogonal directions");
                    for (float x : {0.f, -0.f, 1e-30f})
                      if (!dot_deviate(x)) ctx.fail("orthogonal directions (float)");
                    if (std::fabs(t - std::cos(std::acos(-1.) / 9.)) > 1e-15) ctx.fail("threshold is not the cosine of 20 degrees");
                  }
                  const double a = std::fabs(deg);
                  if (a == 20. || a == 160.) return;
                  const double dot = std::cos(deg * std::acos(-1.) / 180.);
                  if (dot_deviate(dot) != (a > 20. && a < 160.)) ctx.fail("deviation");
                },
                [](u64 i) { return std::to_string(static_cast<double>(i) / 100. - 180.) + " degrees"; }, 4096});
  return sp;
}
#endif
