#pragma once
#include <memory>
#include "scale.hpp"
namespace vf {
using Sub = Subgraph<UL, double, int>;
// The same histories (insertions only) through a coarse cell that holds its
// subgraph; false when the class is not available
struct CellWithGraph {
  virtual ~CellWithGraph() = default;
  virtual void insert(UL x) = 0;
  virtual void insert(const std::unordered_set<UL> &s) = 0;
  virtual bool connected() = 0;
  virtual Sub &graph() = 0;
};
std::unique_ptr<CellWithGraph> make_cell(std::shared_ptr<Dual_Graph<UL, double, int>> g, const std::unordered_set<UL> &s, int compactness);
}  // namespace vf
