#include "universe.hpp"
namespace vf {
using Agg = Agglomerator<UL, double, int>;
#ifdef STUB
std::optional<std::vector<UL>> ask_map(const Agg &) { return std::nullopt; }
#else
std::optional<std::vector<UL>> ask_map(const Agg &a) { return a.get_fc_2_cc(); }
#endif
}  // namespace vf
