// Looks into HDF5 files and compares full outputs; independent of the archive code under test.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <string>
#include <vector>
#include "H5Cpp.h"
#include "vmecpp/vmec/output_quantities/output_quantities.h"
namespace py = pybind11;
namespace {
struct Ctx { py::dict d; hid_t f; };
herr_t visit(hid_t, const char* name, const H5O_info_t* info, void* p) {
  auto* c = static_cast<Ctx*>(p);
  if (info->type != H5O_TYPE_DATASET) return 0;
  hid_t ds = H5Dopen2(c->f, name, H5P_DEFAULT), sp = H5Dget_space(ds), ty = H5Dget_type(ds);
  int rank = H5Sget_simple_extent_ndims(sp);
  std::vector<hsize_t> dims(rank > 0 ? rank : 1, 1);
  if (rank > 0) H5Sget_simple_extent_dims(sp, dims.data(), nullptr);
  hssize_t n = H5Sget_simple_extent_npoints(sp);
  py::list shape; for (int i = 0; i < rank; ++i) shape.append(dims[i]);
  py::object val;
  if (H5Tget_class(ty) == H5T_STRING && H5Tis_variable_str(ty) > 0) {
    std::vector<char*> s(n, nullptr); if (n) H5Dread(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, s.data());
    py::list l; for (char* x : s) l.append(py::str(x ? x : "")); val = l;
  } else {
    std::string b(n * H5Tget_size(ty), '\0'); if (n) H5Dread(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); val = py::bytes(b);
  }
  c->d[py::str(name)] = py::make_tuple(py::tuple(shape), val);
  H5Tclose(ty); H5Sclose(sp); H5Dclose(ds);
  return 0;
}
}  // namespace
PYBIND11_MODULE(vx_h5, m) {
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  m.def("dump", [](const std::string& path) {
    hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) throw std::runtime_error("not an HDF5 file");
    Ctx c{py::dict(), f}; H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, visit, &c); H5Fclose(f);
    return c.d;
  });
  m.def("remove", [](const std::string& path, const std::string& name) {
    hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
    herr_t r = H5Ldelete(f, name.c_str(), H5P_DEFAULT); H5Fclose(f);
    if (r < 0) throw std::runtime_error("no such dataset");
  });
  m.def("equal", [](const vmecpp::OutputQuantities& a, const vmecpp::OutputQuantities& b) { return a == b; });
}
