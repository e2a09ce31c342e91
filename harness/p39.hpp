#pragma once
#include <memory>
#include "universe.hpp"
namespace vf {
using GraphPtr = std::shared_ptr<Dual_Graph<UL, double, int>>;
using Cells = std::unordered_set<UL>;
struct CellState {
  std::set<UL> cells;
  int cardinality, compactness;
  bool iso;
  std::set<UL> inside;  // nodes of the subgraph, if any
};
// A coarse cell of one of the two classes; see p39_cell.cpp and p39_sub.cpp
struct AnyCell {
  virtual ~AnyCell() = default;
  virtual void insert(UL x, std::optional<int> compactness) = 0;
  virtual void insert(const Cells &s, std::optional<int> compactness) = 0;
  virtual CellState state() = 0;
  virtual bool connected() = 0;
  // What the cell remembers of its connectivity, if it says it is up to date
  virtual std::optional<bool> remembered() = 0;
  virtual void refresh() = 0;
};
// Null when the class is not available
std::unique_ptr<AnyCell> plain_cell(GraphPtr g, UL id, const Cells &s, int compactness, bool iso);
std::unique_ptr<AnyCell> full_cell(GraphPtr g, UL id, const Cells &s, int compactness, bool iso);
}  // namespace vf
