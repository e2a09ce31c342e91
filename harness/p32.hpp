#pragma once
#include "mc.hpp"
namespace vf {
// Spaces of each group of helpers; empty when the group cannot be compiled
std::vector<mc::Space> pair_spaces(bool thorough);
std::vector<mc::Space> vector_spaces(bool thorough);
std::vector<mc::Space> power_spaces(bool thorough);
}  // namespace vf
