// usage: ev model systems.  systems: "n m" then n types, n neighbour counts, m indices, 3m coordinates; evaluated in turn by one object
#include <cmath>
#include <cstdio>
#include <fstream>
#include <vector>
#include "mace.hpp"
int main(int argc, char** argv) {
    MACE mace(argv[1]);
    std::ifstream in(argv[2]);
    int n, m;
    while (in >> n >> m) {
        std::vector<int> t(n), c(n), j(m), tj(m);
        std::vector<double> x(3*m), r(m);
        for (auto& v : t) in >> v;
        for (auto& v : c) in >> v;
        for (auto& v : j) in >> v;
        for (auto& v : x) in >> v;
        for (int q=0; q<m; ++q) { tj[q] = t[j[q]]; r[q] = std::sqrt(x[3*q]*x[3*q]+x[3*q+1]*x[3*q+1]+x[3*q+2]*x[3*q+2]); }
        mace.compute_node_energies_forces(n, t, c, j, tj, x, r);
        std::printf("[[");
        for (int q=0; q<n; ++q) std::printf("%s%.17g", q ? "," : "", mace.node_energies[q]);
        std::printf("],[");
        for (int q=0; q<3*m; ++q) std::printf("%s%.17g", q ? "," : "", mace.node_forces[q]);
        std::printf("]]\n");
    }
}
