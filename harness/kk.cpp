// Control of the Kokkos stand-in, and the parts of the Kokkos classes without Python bindings.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include "Kokkos_Core.hpp"
#include "cubic_spline_set_kokkos.hpp"
#include "zbl_kokkos.hpp"
namespace py = pybind11;

template <typename T> static Kokkos::View<T*> view(const std::vector<T>& v)
{
    Kokkos::View<T*> d("argument", v.size());
    auto h = Kokkos::create_mirror_view(d);
    for (size_t i = 0; i < v.size(); ++i) h(i) = v[i];
    Kokkos::deep_copy(d, h);
    return d;
}
template <typename T> static std::vector<T> host(Kokkos::View<T*> d)
{
    auto h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), d);
    std::vector<T> v(d.size());
    for (size_t i = 0; i < v.size(); ++i) v[i] = h(i);
    return v;
}
template <typename T> static std::vector<std::vector<T>> host2(Kokkos::View<T**, Kokkos::LayoutRight> d)
{
    auto h = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), d);
    std::vector<std::vector<T>> v(d.extent(0), std::vector<T>(d.extent(1)));
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) v[i][j] = h(i, j);
    return v;
}

PYBIND11_MODULE(verif_kk, m) {
    m.def("configure", [](int order, bool separate, int team, bool watch) {
        auto& s = Kokkos::verif::state();
        s.order = order; s.separate = separate; s.team = team; s.watch = watch; Kokkos::verif::reset();
    }, py::arg("order"), py::arg("separate"), py::arg("team"), py::arg("watch"));
    m.def("kernels", [] { return Kokkos::verif::state().kernels.load(); });
    // many arguments at once
    m.def("set_array", [](double h, std::vector<std::vector<double>> ys, std::vector<std::vector<double>> ds, std::vector<double> r) {
        CubicSplineSetKokkos s(h, ys, ds);
        Kokkos::View<double**, Kokkos::LayoutRight> v("v", r.size(), ys.size()), d("d", r.size(), ys.size());
        Kokkos::deep_copy(v, 4.5);
        Kokkos::deep_copy(d, -8.5);
        s.evaluate_derivs(Kokkos::View<const double*>(view(r)), v, d);
        return py::make_tuple(host2(v), host2(d));
    });
    py::class_<ZBLKokkos>(m, "ZBLx", py::module_local())
        .def(py::init<double, double, std::vector<double>, std::vector<double>, int>())
        .def("accumulate", [](ZBLKokkos& z, int num_nodes, std::vector<int> types, std::vector<int> num_neigh,
                              std::vector<int> neigh_types, std::vector<int> numbers, std::vector<double> r,
                              std::vector<double> xyz, std::vector<double> e, std::vector<double> f) {
            auto ev = view(e), fv = view(f);
            z.compute_ZBL(num_nodes, view(types), view(num_neigh), view(neigh_types), view(numbers), view(r), view(xyz), ev, fv);
            return py::make_tuple(host(ev), host(fv));
        });
}
