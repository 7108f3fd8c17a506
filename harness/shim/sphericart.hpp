// Stand-in for the sphericart library (not available offline).  It implements the documented
// contract the repository relies on: real spherical harmonics of the *direction* of each point,
// ordered l=0..l_max, m=-l..l, no Condon-Shortley phase, orthonormal on the sphere, plus gradients
// with respect to the (unnormalised) Cartesian coordinates in layout [n][3][(l_max+1)^2].
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <stdexcept>
#include <vector>
namespace sphericart {
namespace shim {
struct D {  // value + 3 partial derivatives
    double v; double g[3];
    D(double v = 0.0) : v(v), g{0, 0, 0} {}
};
inline D operator+(const D& a, const D& b) { D c(a.v + b.v); for (int i = 0; i < 3; ++i) c.g[i] = a.g[i] + b.g[i]; return c; }
inline D operator-(const D& a, const D& b) { D c(a.v - b.v); for (int i = 0; i < 3; ++i) c.g[i] = a.g[i] - b.g[i]; return c; }
inline D operator*(const D& a, const D& b) { D c(a.v * b.v); for (int i = 0; i < 3; ++i) c.g[i] = a.g[i] * b.v + a.v * b.g[i]; return c; }
inline D inv_norm(const D& x, const D& y, const D& z) {
    D s = x * x + y * y + z * z;
    D c(1.0 / std::sqrt(s.v));
    for (int i = 0; i < 3; ++i) c.g[i] = -0.5 * c.v / s.v * s.g[i];
    return c;
}
inline void evaluate(int l_max, double px, double py, double pz, std::vector<D>& out) {
    D x(px), y(py), z(pz);
    x.g[0] = 1; y.g[1] = 1; z.g[2] = 1;
    D q = inv_norm(x, y, z);
    x = x * q; y = y * q; z = z * q;
    out.assign((l_max + 1) * (l_max + 1), D());
    std::vector<D> c(l_max + 1), s(l_max + 1);
    c[0] = D(1.0); s[0] = D(0.0);
    for (int m = 1; m <= l_max; ++m) { c[m] = x * c[m-1] - y * s[m-1]; s[m] = x * s[m-1] + y * c[m-1]; }
    for (int m = 0; m <= l_max; ++m) {
        std::vector<D> Q(l_max + 1);
        double dfact = 1.0;
        for (int i = 1; i <= m; ++i) dfact *= 2 * i - 1;
        for (int l = m; l <= l_max; ++l) {
            if (l == m) Q[l] = D(dfact);
            else if (l == m + 1) Q[l] = D(2.0 * m + 1) * z * Q[l-1];
            else Q[l] = D(1.0 / (l - m)) * (D(2.0 * l - 1) * z * Q[l-1] - D(l + m - 1.0) * Q[l-2]);
            double ratio = 1.0;
            for (int i = l - m + 1; i <= l + m; ++i) ratio /= i;
            double N = std::sqrt((2 * l + 1) / (4 * M_PI) * ratio);
            if (m == 0) out[l*(l+1)] = D(N) * Q[l];
            else {
                N *= std::sqrt(2.0);
                out[l*(l+1)+m] = D(N) * Q[l] * c[m];
                out[l*(l+1)-m] = D(N) * Q[l] * s[m];
            }
        }
    }
}
}  // namespace shim

template <typename T>
class SphericalHarmonics {
    int l_max;
public:
    explicit SphericalHarmonics(size_t l_max) : l_max(int(l_max)) {}
    void compute_array(const T* xyz, size_t xyz_len, T* sph, size_t sph_len) {
        const size_t n = xyz_len / 3, w = size_t(l_max + 1) * (l_max + 1);
        if (xyz_len % 3 || sph_len < n * w) throw std::runtime_error("sphericart: bad array size");
        std::vector<shim::D> o;
        for (size_t i = 0; i < n; ++i) {
            shim::evaluate(l_max, xyz[3*i], xyz[3*i+1], xyz[3*i+2], o);
            for (size_t j = 0; j < w; ++j) sph[i*w+j] = T(o[j].v);
        }
    }
    void compute_array_with_gradients(const T* xyz, size_t xyz_len, T* sph, size_t sph_len, T* dsph, size_t dsph_len) {
        const size_t n = xyz_len / 3, w = size_t(l_max + 1) * (l_max + 1);
        if (xyz_len % 3 || sph_len < n * w || dsph_len < 3 * n * w) throw std::runtime_error("sphericart: bad array size");
        std::vector<shim::D> o;
        for (size_t i = 0; i < n; ++i) {
            shim::evaluate(l_max, xyz[3*i], xyz[3*i+1], xyz[3*i+2], o);
            for (size_t j = 0; j < w; ++j) {
                sph[i*w+j] = T(o[j].v);
                for (int a = 0; a < 3; ++a) dsph[(3*i+a)*w+j] = T(o[j].g[a]);
            }
        }
    }
    void compute(const std::vector<T>& xyz, std::vector<T>& sph) {
        const size_t n = xyz.size() / 3, w = size_t(l_max + 1) * (l_max + 1);
        if (sph.empty()) sph.resize(n * w);
        compute_array(xyz.data(), xyz.size(), sph.data(), sph.size());
    }
    void compute_with_gradients(const std::vector<T>& xyz, std::vector<T>& sph, std::vector<T>& dsph) {
        const size_t n = xyz.size() / 3, w = size_t(l_max + 1) * (l_max + 1);
        if (sph.empty()) sph.resize(n * w);
        if (dsph.empty()) dsph.resize(3 * n * w);
        compute_array_with_gradients(xyz.data(), xyz.size(), sph.data(), sph.size(), dsph.data(), dsph.size());
    }
};
}  // namespace sphericart
