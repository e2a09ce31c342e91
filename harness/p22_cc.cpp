#include "p22.hpp"
#ifndef STUB
#include "CoMMA/Coarse_Cell.h"
#endif
namespace vf {
#ifdef STUB
std::unique_ptr<CellWithGraph> make_cell(std::shared_ptr<Dual_Graph<UL, double, int>>, const std::unordered_set<UL> &, int) { return nullptr; }
#else
namespace {
struct Impl : CellWithGraph {
  Coarse_Cell_Subgraph<UL, double, int> c;
  Impl(std::shared_ptr<Dual_Graph<UL, double, int>> g, const std::unordered_set<UL> &s, int k) : c(g, 0, s, k, true) {}
  void insert(UL x) override { c.insert_cell(x, std::nullopt); }
  void insert(const std::unordered_set<UL> &s) override { c.insert_cells(s, std::nullopt); }
  bool connected() override {
    c.update_connectivity();
    return c._is_connected;
  }
  Sub &graph() override { return *c._cc_graph; }
};
}  // namespace
std::unique_ptr<CellWithGraph> make_cell(std::shared_ptr<Dual_Graph<UL, double, int>> g, const std::unordered_set<UL> &s, int k) { return std::make_unique<Impl>(g, s, k); }
#endif
}  // namespace vf
