// Reads coils files and works on the resulting configuration; configurations are shown as nested lists.
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <string>
#include "vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.h"
namespace py = pybind11;
using magnetics::MagneticConfiguration;
static void Check(const absl::Status& s) { if (!s.ok()) throw std::runtime_error(std::string(s.message())); }
static py::object Show(const MagneticConfiguration& c) {
  py::list circuits;
  for (const auto& sc : c.serial_circuits()) {
    py::list coils;
    for (const auto& coil : sc.coils()) {
      py::list carriers;
      for (const auto& cc : coil.current_carriers()) {
        if (cc.has_polygon_filament()) {
          py::list v;
          for (const auto& p : cc.polygon_filament().vertices()) v.append(py::make_tuple(p.x(), p.y(), p.z()));
          carriers.append(py::make_tuple("polygon", cc.polygon_filament().name(), v));
        } else if (cc.has_circular_filament()) {
          const auto& f = cc.circular_filament();
          carriers.append(py::make_tuple("circle", f.name(), f.radius(), py::make_tuple(f.center().x(), f.center().y(), f.center().z()),
                                         py::make_tuple(f.normal().x(), f.normal().y(), f.normal().z())));
        } else {
          carriers.append(py::make_tuple("other"));
        }
      }
      coils.append(py::make_tuple(coil.num_windings(), carriers));
    }
    circuits.append(py::make_tuple(sc.current(), coils));
  }
  return py::make_tuple(c.has_num_field_periods() ? py::object(py::int_(c.num_field_periods())) : py::object(py::none()), circuits);
}
PYBIND11_MODULE(vx_coils, m) {
  py::class_<MagneticConfiguration>(m, "Conf", py::module_local())
      .def("show", [](const MagneticConfiguration& c) { return Show(c); })
      .def("currents", [](const MagneticConfiguration& c) {
        auto s = magnetics::GetCircuitCurrents(c); Check(s.status()); return Eigen::VectorXd(*s); })
      .def("set_currents", [](MagneticConfiguration& c, const Eigen::VectorXd& v) { Check(magnetics::SetCircuitCurrents(v, c)); })
      .def("normalize", [](MagneticConfiguration& c) { Check(magnetics::NumWindingsToCircuitCurrents(c)); })
      .def("move", [](MagneticConfiguration& c, double d) { Check(magnetics::MoveRadially(d, c)); });
  m.def("parse", [](const std::string& t) { auto s = magnetics::ImportMagneticConfigurationFromMakegrid(t); Check(s.status()); return MagneticConfiguration(*s); });
  m.def("read", [](const std::string& p) { auto s = magnetics::ImportMagneticConfigurationFromCoilsFile(p); Check(s.status()); return MagneticConfiguration(*s); });
}
