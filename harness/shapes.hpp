// Larger meshes: every shape x every listed size x every attribute pattern.
#pragma once
#include <numeric>
#include "mesh.hpp"

namespace vf {

inline const std::vector<UL> kScaleSizes{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 31, 32, 33, 48, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300};
constexpr int kScaleShapes = 12, kScaleAttrs = 6;
inline const char *const kScaleWhat = "12 shapes (path, path numbered by a stride, ring, star with its centre first or last, caterpillar, binary tree, two hubs sharing all the others, complete graph up to 40 cells and band beyond, grid, broom, two separate paths) of 39 sizes from 1 to 300 cells";

inline std::vector<std::vector<UL>> scale_adj(int shape, UL n) {
  std::vector<std::vector<UL>> a(n);
  auto link = [&](UL x, UL y) {
    if (x == y || x >= n || y >= n) return;
    a[x].push_back(y);
    a[y].push_back(x);
  };
  // a stride without common factor with n: neighbours get distant numbers
  UL st = n / 2 + 1;
  while (std::gcd(st, n) != 1) ++st;
  UL wdt = 1;
  while ((wdt + 1) * (wdt + 1) <= n) ++wdt;
  switch (shape) {
    case 0:
      for (UL i = 0; i + 1 < n; ++i) link(i, i + 1);
      break;
    case 1:
      for (UL i = 0; i + 1 < n; ++i) link(i * st % n, (i + 1) * st % n);
      break;
    case 2:
      for (UL i = 0; i + 1 < n; ++i) link(i, i + 1);
      if (n > 2) link(n - 1, 0);
      break;
    case 3:
      for (UL i = 1; i < n; ++i) link(0, i);
      break;
    case 4:
      for (UL i = 0; i + 1 < n; ++i) link(n - 1, i);
      break;
    case 5:  // spine of the even cells, an odd cell hanging from each
      for (UL i = 0; i < n; i += 2) {
        link(i, i + 2);
        link(i, i + 1);
      }
      break;
    case 6:
      for (UL i = 1; i < n; ++i) link((i - 1) / 2, i);
      break;
    case 7:
      for (UL i = 1; i + 1 < n; ++i) {
        link(0, i);
        link(n - 1, i);
      }
      break;
    case 8:
      for (UL i = 0; i < n; ++i)
        for (UL j = i + 1; j < n; ++j)
          if (n <= 40 || j - i < 12 || i == 0) link(i, j);
      break;
    case 9:
      for (UL i = 0; i < n; ++i) {
        if ((i + 1) % wdt) link(i, i + 1);
        link(i, i + wdt);
      }
      break;
    case 10:  // half a path, the other half leaves of its end
      for (UL i = 0; i + 1 < n; ++i) link(std::min(i, n / 2), i + 1);
      break;
    default:
      for (UL i = 0; i + 1 < n; ++i)
        if (i + 1 != n / 2) link(i, i + 1);
  }
  return a;
}

// Attribute patterns: plain; varied; tiny magnitudes; huge magnitudes and
// priorities differing in the last bits; strongly negative priorities; many
// boundary faces
inline Mesh scale_mesh(int shape, UL n, int attr, int dim = 2) {
  Mesh m;
  m.dim = dim;
  const double k = attr == 2 ? std::ldexp(1., -120) : attr == 3 ? std::ldexp(1., 90) : 1.;
  set_graph(m, scale_adj(shape, n), [=](UL a, UL b) { return attr == 0 ? 1. : k * (1. + 0.5 * static_cast<double>((a + b) % 5)); });
  for (UL i = 0; i < n; ++i) {
    const double x = static_cast<double>(i);
    m.vol.push_back(attr == 0 ? 1. : k * (1. + 0.25 * static_cast<double>(i % 3)));
    const double s = attr == 2 ? std::ldexp(1., -40) : attr == 3 ? std::ldexp(1., 30) : 1.;
    std::vector<double> c{s * x, s * static_cast<double>(i * 7 % 11)};
    if (dim == 3) c.push_back(s * static_cast<double>(i % 5));
    m.c.push_back(c);
    switch (attr) {
      case 0: m.prio.push_back(1.); break;
      case 1: m.prio.push_back(x); break;
      case 2: m.prio.push_back(std::ldexp(static_cast<double>(i * 5 % 7), -130)); break;
      case 3: m.prio.push_back(1. + std::ldexp(static_cast<double>(i * 5 % 9), -50)); break;
      case 4: m.prio.push_back(-1e9 * (1. + static_cast<double>(i * 3 % 8))); break;
      default: m.prio.push_back(-x);
    }
    m.nbnd.push_back(attr == 0 ? 0 : attr == 5 ? static_cast<int>(i * 13 % 40) : attr == 4 ? static_cast<int>(i % 4 == 3) : static_cast<int>(i * 3 % 4));
  }
  return m;
}

}  // namespace vf
