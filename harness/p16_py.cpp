// The Python module, linked in and driven through an embedded interpreter
#include <pybind11/embed.h>
#include <pybind11/stl.h>

#include "p16.hpp"
extern "C" PyObject *PyInit_CoMMA();
namespace py = pybind11;
namespace vf {
static py::module_ *mod = nullptr;
void py_start() {
  PyImport_AppendInittab("CoMMA", &PyInit_CoMMA);
  py::initialize_interpreter(false);
  mod = new py::module_(py::module_::import("CoMMA"));
}
static py::object en(const char *type, const char *name) { return mod->attr(type).attr(name); }
Outcome py_call(const Mesh &m, const Config &g, int form) {
  Outcome o;
  static const char *ars[10] = {"DIAMETER_OVER_RADIUS", "DIAMETER_OVER_MIN_EDGE", "DIAMETER", "ONE_OVER_MEASURE", "ONE_OVER_INTERNAL_WEIGHTS", "PERIMETER_OVER_RADIUS", "EXTERNAL_WEIGHTS", "MAX_BARY_DIST_OVER_RADIUS", "MAX_OVER_MIN_BARY_DIST", "ALGEBRAIC_PERIMETER_OVER_MEASURE"};
  try {
    py::object f = mod->attr("agglomerate_one_level");
    py::object res;
    py::object mx = py::none();
    if (g.maxc) mx = py::int_(*g.maxc);
    if (form == 1) {
      py::dict k;
      k["adjMatrix_row_ptr"] = m.row;
      k["adjMatrix_col_ind"] = m.col;
      k["adjMatrix_areaValues"] = m.w;
      k["volumes"] = m.vol;
      k["centers"] = m.c;
      k["priority_weights"] = m.prio;
      k["anisotropicCompliantCells"] = g.compliant;
      k["n_bnd_faces"] = m.nbnd;
      k["build_anisotropic_lines"] = g.build;
      k["is_anisotropic"] = g.aniso;
      k["odd_line_length"] = g.odd;
      k["threshold_anisotropy"] = g.athr;
      k["seed_ordering_type"] = en("SeedsPool", g.seed == 0 ? "BOUNDARY" : g.seed == 1 ? "NEIGHBOURHOOD" : g.seed == 10 ? "BOUNDARY_POINT_INIT" : "NEIGHBOURHOOD_POINT_INIT");
      k["agglomerationLines_Idx"] = g.lidx;
      k["agglomerationLines"] = g.lines;
      k["correction"] = g.corr;
      k["dimension"] = m.dim;
      k["goal_card"] = g.goal;
      k["min_card"] = g.min;
      k["max_card"] = g.max;
      k["aspect_ratio"] = en("AR", ars[g.ar]);
      k["singular_card_thresh"] = g.thresh;
      k["max_cells_in_line"] = mx;
      k["aniso_cell_coupling"] = en("CellCoupling", g.coupling ? "MIN_DISTANCE" : "MAX_WEIGHT");
      k["force_line_direction"] = g.dir;
      k["fc_choice_iter"] = g.fc_iter;
      k["type_of_isotropic_agglomeration"] = en("Neighbourhood", g.neigh ? "PURE_FRONT" : "EXTENDED");
      res = f(**k);
    } else {
      py::list a;
      a.append(m.row);
      a.append(m.col);
      a.append(m.w);
      a.append(m.vol);
      a.append(m.c);
      a.append(m.prio);
      a.append(g.compliant);
      a.append(m.nbnd);
      a.append(g.build);
      a.append(g.aniso);
      a.append(g.odd);
      a.append(g.athr);
      a.append(g.seed);
      a.append(g.lidx);
      a.append(g.lines);
      a.append(g.corr);
      a.append(m.dim);
      a.append(g.goal);
      a.append(g.min);
      a.append(g.max);
      const int n = form >= 10 ? form - 10 : 7;
      if (n > 0) a.append(g.ar);
      if (n > 1) a.append(g.thresh);
      if (n > 2) a.append(mx);
      if (n > 3) a.append(g.coupling);
      if (n > 4) a.append(g.dir);
      if (n > 5) a.append(g.fc_iter);
      if (n > 6) a.append(g.neigh);
      res = f(*a);
    }
    const auto t = res.cast<std::tuple<std::vector<UL>, std::vector<UL>, std::vector<UL>>>();
    o.r.f2c = std::get<0>(t);
    o.r.lidx = std::get<1>(t);
    o.r.lines = std::get<2>(t);
  } catch (py::error_already_set &e) {
    if (!e.matches(PyExc_ValueError)) throw std::runtime_error(std::string("Python error: ") + e.what());
    o.rejected = true;
    o.why = e.what();
  }
  return o;
}
std::string py_helpers(const Mesh &m, const Result &r) {
  {
    std::vector<UL> row, col;
    std::vector<double> w, vol, prio;
    std::vector<std::vector<double>> c;
    std::vector<int> nb;
    build_coarse_graph<UL, double, int>(r.f2c, m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd, row, col, w, vol, c, prio, nb);
    py::dict k;
    k["f2c"] = r.f2c;
    k["f_adj_idx"] = m.row;
    k["f_adj"] = m.col;
    k["f_weights"] = m.w;
    k["f_volumes"] = m.vol;
    k["f_centers"] = m.c;
    k["f_priority"] = m.prio;
    k["f_n_bnd"] = m.nbnd;
    const py::object res = mod->attr("build_coarse_graph")(**k);
    const auto t = res.cast<std::tuple<std::vector<UL>, std::vector<UL>, std::vector<double>, std::vector<double>, std::vector<std::vector<double>>, std::vector<double>, std::vector<int>>>();
    if (t != std::make_tuple(row, col, w, vol, c, prio, nb)) return "Python coarse graph differs from the C++ one";
    const py::object res2 = mod->attr("build_coarse_graph")(r.f2c, m.row, m.col, m.w, m.vol, m.c, m.prio, m.nbnd);
    if (!res2.equal(res)) return "Python coarse graph: positional and keyword calls differ";
  }
  for (size_t k = 0; k < 3; ++k) {
    std::vector<UL> wall;
    for (size_t j = 0; j < k; ++j) wall.push_back((j * 5 + 1) % m.n());
    std::vector<long> d;
    compute_neighbourhood_based_wall_distance<UL, long>(m.row, m.col, wall, d);
    py::dict a;
    a["neigh_idxs"] = m.row;
    a["neighs"] = m.col;
    a["wall"] = wall;
    if (mod->attr("compute_neighbourhood_based_wall_distance")(**a).cast<std::vector<long>>() != d) return "Python wall distance differs from the C++ one";
  }
  for (int k = 0; k < 11; ++k) {
    std::unordered_set<int> s;
    for (int j = 0; j < 3; ++j)
      if (k < 8 && (k >> j & 1)) s.insert(3 + j);
    if (k >= 8)  // many requested values
      for (int j = k == 8 ? 1 : -3; j < (k == 10 ? 60 : 8); ++j) s.insert(j);
    std::vector<UL> f;
    filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, s, f);
    if (mod->attr("filter_cells_by_n_edges")(m.row, m.nbnd, s).cast<std::vector<UL>>() != f) return "Python cell filter differs from the C++ one";
  }
  return "";
}
}  // namespace vf
