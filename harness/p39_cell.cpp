#include "p39.hpp"
#ifndef STUB
#include "CoMMA/Coarse_Cell.h"
#endif
namespace vf {
#ifdef STUB
std::unique_ptr<AnyCell> plain_cell(GraphPtr, UL, const Cells &, int, bool) { return nullptr; }
#else
namespace {
struct Plain : AnyCell {
  Coarse_Cell<UL, double, int> c;
  Plain(GraphPtr g, UL id, const Cells &s, int k, bool iso) : c(g, id, s, k, iso) {}
  void insert(UL x, std::optional<int> k) override { c.insert_cell(x, k); }
  void insert(const Cells &s, std::optional<int> k) override { c.insert_cells(s, k); }
  CellState state() override { return {std::set<UL>(c._s_fc.begin(), c._s_fc.end()), c._cardinality, c._compactness, c._is_isotropic, {}}; }
  bool connected() override { return c.is_connected(); }
  std::optional<bool> remembered() override { return std::nullopt; }
  void refresh() override {}
};
}  // namespace
std::unique_ptr<AnyCell> plain_cell(GraphPtr g, UL id, const Cells &s, int k, bool iso) { return std::make_unique<Plain>(g, id, s, k, iso); }
#endif
}  // namespace vf
