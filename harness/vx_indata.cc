// Archives an input in HDF5 and reads it back (VmecINDATA::WriteTo / LoadInto); works on the objects of _vmecpp.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <string>
#include "H5Cpp.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
namespace py = pybind11;
PYBIND11_MODULE(vx_indata, m) {
  m.def("write", [](const vmecpp::VmecINDATA& in, const std::string& path) {
    H5::H5File f(path, H5F_ACC_TRUNC);
    absl::Status s = in.WriteTo(f);
    if (!s.ok()) throw std::runtime_error(std::string(s.message()));
  });
  m.def("read", [](const std::string& path) {
    H5::H5File f(path, H5F_ACC_RDONLY);
    vmecpp::VmecINDATA in;
    absl::Status s = vmecpp::VmecINDATA::LoadInto(in, f);
    if (!s.ok()) throw std::runtime_error(std::string(s.message()));
    return in;
  });
}
