#include "p28.hpp"
namespace vf {
#ifdef STUB
bool more_available() { return false; }
void create_delayed(Container &) {}
UL number_of_cc(const Container &) { return 0; }
CellView view(const Container &, UL) { return {}; }
void request_delayed(Container &, const std::unordered_set<UL> &, int) {}
#else
bool more_available() { return true; }
void create_delayed(Container &c) { c.cc_create_all_delayed_cc(); }
UL number_of_cc(const Container &c) { return c.get_nb_of_cc(); }
CellView view(const Container &c, UL k) {
  const auto &x = *c._ccs.at(k);
  return {std::set<UL>(x._s_fc.begin(), x._s_fc.end()), x._compactness, x._is_isotropic, x._idx};
}
void request_delayed(Container &c, const std::unordered_set<UL> &s, int compactness) { c.create_cc(s, compactness, false, true); }
#endif
}  // namespace vf
