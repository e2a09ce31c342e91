#pragma once
#include "universe.hpp"
namespace vf {
using Container = Coarse_Cell_Container<UL, double, int>;
// Parts of the container that may be absent; see p28_more.cpp
struct CellView {
  std::set<UL> cells;
  int compactness;
  bool iso;
  UL idx;
};
bool more_available();
void create_delayed(Container &c);
UL number_of_cc(const Container &c);
CellView view(const Container &c, UL k);
void request_delayed(Container &c, const std::unordered_set<UL> &s, int compactness);
}  // namespace vf
