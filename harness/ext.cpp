// Exposes parts of the library's public C++ interface that the Python bindings leave out.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <vector>
#include "spherical_harmonic.hpp"
#include "zbl.hpp"
namespace py = pybind11;
PYBIND11_MODULE(verif_ext, m) {
    m.def("sphericart_real", &sphericart_real);
    py::class_<ZBL>(m, "ZBLx", py::module_local())
        .def(py::init<double, double, std::vector<double>, std::vector<double>, int>())
        .def("accumulate", [](ZBL& z, int num_nodes, std::vector<int> types, std::vector<int> num_neigh,
                              std::vector<int> neigh_types, std::vector<int> numbers, std::vector<double> r,
                              std::vector<double> xyz, std::vector<double> e, std::vector<double> f) {
            z.compute_ZBL(num_nodes, types, num_neigh, neigh_types, numbers, r, xyz, e, f);
            return py::make_tuple(e, f);
        });
}
