// Stand-in for the parts of KokkosKernels that libsymmetrix uses.
#pragma once
#include "Kokkos_Core.hpp"
namespace KokkosBatched {
struct Trans { struct NoTranspose {}; struct Transpose {}; };
struct Algo { struct Gemm { struct Unblocked {}; struct Blocked {}; }; struct Gemv { struct Unblocked {}; struct Blocked {}; }; };
template <class Member, class TA, class TB, class A> struct TeamGemm {
    template <class VA, class VB, class VC>
    static int invoke(const Member& member, double alpha, const VA& a, const VB& b, double beta, const VC& c) {
        constexpr bool ta = std::is_same_v<TA, Trans::Transpose>, tb = std::is_same_v<TB, Trans::Transpose>;
        const size_t m = a.extent(ta ? 1 : 0), k = a.extent(ta ? 0 : 1), n = b.extent(tb ? 0 : 1);
        if (b.extent(tb ? 1 : 0) != k || c.extent(0) != m || c.extent(1) != n) Kokkos::verif::fail("TeamGemm: extents do not fit");
        using T = typename VC::non_const_value_type;
        member.share((long)(m * n), [&](long ij) {
            const size_t i = ij / n, j = ij % n;
            T s = 0;
            for (size_t l = 0; l < k; ++l) s += (ta ? a(l, i) : a(i, l)) * (tb ? b(j, l) : b(l, j));
            c(i, j) = (beta == 0.0 ? T(0) : T(beta) * c(i, j)) + T(alpha) * s;
        });
        return 0;
    }
};
}  // namespace KokkosBatched
namespace KokkosBlas {
template <class T, class A> struct SerialGemv {
    template <class VA, class VX, class VY>
    static int invoke(double alpha, const VA& a, const VX& x, double beta, const VY& y) {
        constexpr bool t = std::is_same_v<T, KokkosBatched::Trans::Transpose>;
        const size_t m = a.extent(t ? 1 : 0), k = a.extent(t ? 0 : 1);
        if (x.extent(0) != k || y.extent(0) != m) Kokkos::verif::fail("SerialGemv: extents do not fit");
        for (size_t i = 0; i < m; ++i) {
            double s = 0;
            for (size_t l = 0; l < k; ++l) s += (t ? a(l, i) : a(i, l)) * x(l);
            y(i) = (beta == 0.0 ? 0.0 : beta * y(i)) + alpha * s;
        }
        return 0;
    }
};
template <class VX, class VY> inline double dot(const VX& x, const VY& y) {
    if (x.extent(0) != y.extent(0)) throw std::runtime_error("kokkos stand-in: dot of views with different extents");
    double s = 0;
    for (size_t i = 0; i < x.extent(0); ++i) s += x.flat(i) * y.flat(i);
    return s;
}
}  // namespace KokkosBlas
