#include "p39.hpp"
#ifndef STUB
#include "CoMMA/Coarse_Cell.h"
#endif
namespace vf {
#ifdef STUB
std::unique_ptr<AnyCell> full_cell(GraphPtr, UL, const Cells &, int, bool) { return nullptr; }
#else
namespace {
struct Full : AnyCell {
  Coarse_Cell_Subgraph<UL, double, int> c;
  Coarse_Cell<UL, double, int> &base;
  // The base is not accessible, but it is there
  Full(GraphPtr g, UL id, const Cells &s, int k, bool iso) : c(g, id, s, k, iso), base((Coarse_Cell<UL, double, int> &)c) {}
  void insert(UL x, std::optional<int> k) override { c.insert_cell(x, k); }
  void insert(const Cells &s, std::optional<int> k) override { c.insert_cells(s, k); }
  CellState state() override {
    const auto &m = c._cc_graph->_mapping_l_to_g;
    return {std::set<UL>(base._s_fc.begin(), base._s_fc.end()), base._cardinality, base._compactness, base._is_isotropic, std::set<UL>(m.begin(), m.end())};
  }
  bool connected() override { return base.is_connected(); }
  std::optional<bool> remembered() override { return c._is_connectivity_up_to_date ? std::optional<bool>(c._is_connected) : std::nullopt; }
  void refresh() override { c.update_connectivity(); }
};
}  // namespace
std::unique_ptr<AnyCell> full_cell(GraphPtr g, UL id, const Cells &s, int k, bool iso) { return std::make_unique<Full>(g, id, s, k, iso); }
#endif
}  // namespace vf
