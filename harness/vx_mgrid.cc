// The external field tables: computing, writing, loading and interpolating them.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <memory>
#include <string>
#include "vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.h"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
namespace py = pybind11;
using makegrid::MakegridParameters;
static void Check(const absl::Status& s) { if (!s.ok()) throw std::runtime_error(std::string(s.message())); }
static MakegridParameters Par(const py::dict& d) {
  MakegridParameters p;
  p.normalize_by_currents = d["norm"].cast<bool>(); p.assume_stellarator_symmetry = d["sym"].cast<bool>(); p.number_of_field_periods = d["nfp"].cast<int>();
  p.r_grid_minimum = d["rmin"].cast<double>(); p.r_grid_maximum = d["rmax"].cast<double>(); p.number_of_r_grid_points = d["r"].cast<int>();
  p.z_grid_minimum = d["zmin"].cast<double>(); p.z_grid_maximum = d["zmax"].cast<double>(); p.number_of_z_grid_points = d["z"].cast<int>();
  p.number_of_phi_grid_points = d["p"].cast<int>();
  return p;
}
using M = makegrid::RowMatrixXd;
static makegrid::MagneticFieldResponseTable Table(const py::dict& d, const M& r, const M& p, const M& z) { return makegrid::MagneticFieldResponseTable(Par(d), r, p, z); }
PYBIND11_MODULE(vx_mgrid, m) {
  py::class_<vmecpp::MGridProvider>(m, "Provider", py::module_local())
      .def(py::init<>())
      .def("load_file", [](vmecpp::MGridProvider& g, const std::string& f, const Eigen::VectorXd& c) { Check(g.LoadFile(f, c)); })
      .def("load_fields", [](vmecpp::MGridProvider& g, const py::dict& d, const M& r, const M& p, const M& z, const Eigen::VectorXd& c) { Check(g.LoadFields(Table(d, r, p, z), c)); })
      .def("loaded", [](vmecpp::MGridProvider& g) { return g.IsLoaded(); })
      .def("interpolate", [](vmecpp::MGridProvider& g, int a, int b, int nzeta, const Eigen::VectorXd& r, const Eigen::VectorXd& z) {
        Eigen::VectorXd br(b - a), bp(b - a), bz(b - a);
        g.interpolate(a, b, nzeta, r, z, br, bp, bz);
        return py::make_tuple(br, bp, bz);
      });
  m.def("write", [](const std::string& f, const py::dict& d, const Eigen::VectorXd& c, const M& r, const M& p, const M& z) {
    Check(makegrid::WriteMakegridNetCDFFile(f, Par(d), c, Table(d, r, p, z), std::nullopt)); });
  m.def("field", [](const py::dict& d, const std::string& coils) {
    auto c = magnetics::ImportMagneticConfigurationFromCoilsFile(coils); Check(c.status());
    auto t = makegrid::ComputeMagneticFieldResponseTable(Par(d), *c); Check(t.status());
    return py::make_tuple(M(t->b_r), M(t->b_p), M(t->b_z)); });
  m.def("potential", [](const py::dict& d, const std::string& coils) {
    auto c = magnetics::ImportMagneticConfigurationFromCoilsFile(coils); Check(c.status());
    auto t = makegrid::ComputeVectorPotentialCache(Par(d), *c); Check(t.status());
    return py::make_tuple(M(t->a_r), M(t->a_p), M(t->a_z)); });
}
