// usage: evkk model systems [order team watch ...].  systems as for ev; each evaluated by one object in the environments given
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <vector>
#include "mace_kokkos.hpp"
template <typename T> static Kokkos::View<T*> view(const std::vector<T>& v) {
    Kokkos::View<T*> d("argument", v.size());
    for (size_t i = 0; i < v.size(); ++i) d(i) = v[i];
    return d;
}
int main(int argc, char** argv) {
    Kokkos::initialize();
    MACEKokkos<double> mace(argv[1]);
    std::vector<std::vector<int>> envs;
    for (int q = 3; q + 2 < argc; q += 3) envs.push_back({std::atoi(argv[q]), std::atoi(argv[q+1]), std::atoi(argv[q+2])});
    if (envs.empty()) envs.push_back({0, 1, 0});
    std::ifstream in(argv[2]);
    int n, m;
    while (in >> n >> m) {
        std::vector<int> t(n), c(n), j(m), tj(m);
        std::vector<double> x(3*m), r(m);
        for (auto& v : t) in >> v;
        for (auto& v : c) in >> v;
        for (auto& v : j) in >> v;
        for (auto& v : x) in >> v;
        for (int q=0; q<m; ++q) { tj[q] = t[j[q]]; r[q] = std::sqrt(x[3*q]*x[3*q]+x[3*q+1]*x[3*q+1]+x[3*q+2]*x[3*q+2]); }
        for (auto& e : envs) {
            auto& s = Kokkos::verif::state(); s.order = e[0]; s.team = e[1]; s.watch = e[2];
            mace.compute_node_energies_forces(n, view(t), view(c), view(j), view(tj), view(x), view(r));
            s.watch = false;
            std::printf("[[");
            for (int q=0; q<n; ++q) std::printf("%s%.17g", q ? "," : "", mace.node_energies(q));
            std::printf("],[");
            for (int q=0; q<3*m; ++q) std::printf("%s%.17g", q ? "," : "", mace.node_forces(q));
            std::printf("]]\n");
        }
    }
}
