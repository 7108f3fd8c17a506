"""Replays behaviours of specs/kokkos.qnt (components) into the Kokkos classes, through adapters that offer the
interface of the plain classes, so that the drivers of the plain classes do the comparing."""
import numpy as np
import symmetrix
import verif_kk
import r_spline
import r_splineset
import r_mlp
import r_poly
import r_zbl
import r_zblsum
from common import call

symmetrix._init_kokkos()


class Mlp:
    def __init__(self, *a):
        self.m = symmetrix.MultilayerPerceptronKokkos(*a)
        self.nin = a[0][0]

    def _run(self, x, n, grad):
        x = np.array(x, dtype=float).reshape(n, self.nin)
        f, g = np.full(n, 7.5), np.full((n, self.nin), -3.25)   # the caller's buffers hold something already
        if grad:
            self.m.evaluate_gradient(x, f, g)
            return f.tolist(), g.reshape(-1).tolist()
        self.m.evaluate(x, f)
        return f.tolist()

    def evaluate(self, x):
        return self._run(x, 1, False)

    def evaluate_gradient(self, x):
        return self._run(x, 1, True)

    def evaluate_batch(self, x, n):
        return self._run(x, n, False)

    def evaluate_gradient_batch(self, x, n):
        return self._run(x, n, True)


class Poly:
    def __init__(self, *a):
        self.p = symmetrix.MultivariatePolynomialKokkos(*a)
        self.nv = a[0]

    def evaluate(self, x):
        return self.p.evaluate(np.array(x))

    def evaluate_simple(self, x):
        return self.p.evaluate_simple(np.array(x))

    def _grad(self, f, x):
        g = np.full(self.nv, 2.75)
        return f(np.array(x), g), g.tolist()

    def evaluate_gradient(self, x):
        return self._grad(self.p.evaluate_gradient, x)

    def evaluate_gradient_simple(self, x):
        return self._grad(self.p.evaluate_gradient_simple, x)

    def evaluate_batch(self, x, n):      # no batches in this class: one call each
        fs, gs = [], []
        for i in range(n):
            f, g = self.evaluate_gradient(x[i * self.nv:(i + 1) * self.nv])
            fs.append(f)
            gs += g
        return fs, gs


class SplineSet:
    """evaluate_derivs through the version for many arguments every other time"""

    def __init__(self, *a):
        self.a, self.s, self.n = a, symmetrix.CubicSplineSetKokkos(*a), 0

    def evaluate(self, r, v):
        self.s.evaluate(r, v)

    def evaluate_derivs(self, r, v, d):
        self.s.evaluate_derivs(r, v, d)
        top = self.a[0] * (len(self.a[1][0]) - 1)
        self.n += 1
        if 0 <= r < top:
            many = [top * q / 8 for q in range(self.n % 4)] + [r, top * 0.3]
            vs, ds = verif_kk.set_array(*self.a, many)
            k = self.n % 4
            if self.n % 2:
                v[:], d[:] = vs[k], ds[k]


PARTS = {"spline": (r_spline, symmetrix.CubicSplineKokkos), "set": (r_splineset, SplineSet),
         "mlp": (r_mlp, Mlp), "poly": (r_poly, Poly), "zbl": (r_zbl, symmetrix.ZBLKokkos),
         "zblsum": (r_zblsum, verif_kk.ZBLx)}


def before(s):
    verif_kk.configure(**s["ex"])


def replay(states, ctx):
    mod, cls = PARTS[states[0]["part"]]
    mod.replay(states, ctx, cls=cls, before=before)
