// Meaning of a model file: the two-layer MACE energy, written from the mathematics of the model.
// A configuration is a list of node types and a list of directed edges (centre i, neighbour j, vector);
// the energy of node i is a sum over its own edges only, using its neighbours' first-layer features.
module macemath {
  import fix.* from "./fix"
  import zblmath.* from "./zbl"

  type Model = {
    ne: int, K: int, rcut: int, lmax: int, Lmax: int, Z: List[int], E0: List[int],
    zbl: bool, par: Par,
    h: int, v0: List[List[List[int]]], d0: List[List[List[int]]],       // [pair][spline][node]
    v1: List[List[List[int]]], d1: List[List[List[int]]],
    H0: List[int], A0w: List[List[List[int]]],                          // [element*K+k], [element][l][k'*K+k]
    a0s: bool, a1s: bool, ah: int, ah1: int, a0v: List[List[int]], a0d: List[List[int]], a1v: List[List[int]], a1d: List[List[int]],
    M0m: List[List[List[int]]], M0w: List[List[List[List[int]]]],       // [LM], [element][LM][k][monomial]
    H1w: List[int],
    pl: List[int], pl1: List[int], pl2: List[int],                      // coupling paths
    cme: List[int], ccg: List[int], cll: List[int],                     // coupling coefficients
    A1w: List[List[int]], M1m: List[List[int]], M1w: List[List[List[int]]],
    H2h: List[List[int]], H2m: List[int], ro1: List[int], ro2a: List[int], ro2b: List[int], sc: int
  }
  type Edge = { i: int, j: int, v: List[int] }
  type Config = { types: List[int], edges: List[Edge] }

  pure def lof(lm: int): int = if (lm < 1) 0 else if (lm < 4) 1 else if (lm < 9) 2 else if (lm < 16) 3 else if (lm < 25) 4 else if (lm < 36) 5 else 6
  pure def vlen(v: List[int]): int = isqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
  // index of the unordered element pair
  pure def pair(n: int, a: int, b: int): int = {
    val lo = imin(a, b)
    val hi = imax(a, b)
    range(0, lo).foldl(0, (s, q) => s + n - q) + hi - lo
  }
  // spherical harmonics in the convention of the model files: component normalisation
  // (sum_m Y_lm^2 = 2l+1), polar axis y, azimuth from z towards x
  pure val YNORM = [ONE, sqrt(3 * ONE), sqrt(ONE * 3), sqrt(3 * ONE),
                    sqrt(15 * ONE), sqrt(15 * ONE), sqrt(5 * ONE) / 2, sqrt(15 * ONE), sqrt(15 * ONE) / 2,
                    sqrt(35 * ONE / 8), sqrt(105 * ONE), sqrt(21 * ONE / 8), sqrt(7 * ONE) / 2, sqrt(21 * ONE / 8), sqrt(105 * ONE) / 2, sqrt(35 * ONE / 8)]
  // any degree, from the Legendre recursion; [Q_m^m, Q_(m+1)^m, ..] without the sine powers
  pure def legendre(lmax: int, m: int, z: int): List[int] =
    range(m, lmax + 1).foldl([], (q, l) => q.append(
      if (l == m) range(0, m).foldl(ONE, (p, k) => p * (2 * k + 1))
      else if (l == m + 1) mul((2 * m + 1) * z, q[0])
      else (mul((2 * l - 1) * z, q[l - m - 1]) - (l + m - 1) * q[l - m - 2]) / (l - m)))
  pure def ynorm(l: int, m: int): int =
    sqrt(range(l - m + 1, l + m + 1).foldl((if (m == 0) 1 else 2) * (2 * l + 1) * ONE, (p, k) => p / k))
  pure def ylmsAny(lmax: int, v: List[int], r: int): List[int] = {
    val x = div(v[2], r)
    val y = div(v[0], r)
    // real and imaginary part of (x + iy)^m
    val cs = range(0, lmax).foldl([(ONE, 0)], (l, m) => l.append((mul(x, l[m]._1) - mul(y, l[m]._2), mul(x, l[m]._2) + mul(y, l[m]._1))))
    val qs = range(0, lmax + 1).foldl([], (l, m) => l.append(legendre(lmax, m, div(v[1], r))))
    range(0, (lmax + 1) * (lmax + 1)).foldl([], (out, lm) => {
      val l = lof(lm)
      val m = lm - l * l - l
      val q = mul(ynorm(l, abs(m)), qs[abs(m)][l - abs(m)])
      out.append(mul(q, if (m < 0) cs[-m]._2 else cs[m]._1)) })
  }
  pure def ylms(lmax: int, v: List[int], r: int): List[int] = if (lmax > 3) ylmsAny(lmax, v, r) else {
    val x = div(v[2], r)
    val y = div(v[0], r)
    val z = div(v[1], r)
    val z2 = mul(z, z)
    val x2 = mul(x, x)
    val y2 = mul(y, y)
    val raw = if (lmax == 0) [ONE]
      else if (lmax == 1) [ONE, y, z, x]
      else if (lmax == 2) [ONE, y, z, x, mul(x, y), mul(y, z), 3 * z2 - ONE, mul(x, z), x2 - y2]
      else [ONE, y, z, x, mul(x, y), mul(y, z), 3 * z2 - ONE, mul(x, z), x2 - y2,
            mul(y, 3 * x2 - y2), mul(mul(x, y), z), mul(y, 5 * z2 - ONE), mul(z, 5 * z2 - 3 * ONE),
            mul(x, 5 * z2 - ONE), mul(z, x2 - y2), mul(x, x2 - 3 * y2)]
    range(0, raw.length()).foldl([], (l, q) => l.append(mul(YNORM[q], raw[q])))
  }
  pure def splines(h: int, vs: List[List[int]], ds: List[List[int]], r: int): List[int] = {
    val i = r / h
    val s = div(r - i * h, h)
    val s2 = mul(s, s)
    val s3 = mul(s2, s)
    val b0 = 2 * s3 - 3 * s2 + ONE
    val b1 = 3 * s2 - 2 * s3
    val b2 = mul(h, s3 - 2 * s2 + s)
    val b3 = mul(h, s3 - s2)
    range(0, vs.length()).foldl([], (l, q) =>
      l.append((b0 * vs[q][i] + b1 * vs[q][i + 1] + b2 * ds[q][i] + b3 * ds[q][i + 1]) / ONE))
  }
  pure def monomial(mo: List[int], x: List[int], K: int, k: int): int =
    mo.foldl(ONE, (p, lm) => mul(p, x[lm * K + k]))
  pure def silu(x: int): int =
    if (x >= 0) div(x, ONE + exp(-x)) else { val e = exp(x) mul(x, div(e, ONE + e)) }

  // everything about one edge
  type EdgeFn = { i: int, j: int, y: List[int], r0: List[int], r1: List[int], s0: int, s1: int, z: int }
  pure def edgeFn(m: Model, c: Config, e: Edge): EdgeFn = {
    val r = vlen(e.v)
    val ti = c.types[e.i]
    val tj = c.types[e.j]
    val p = pair(m.ne, ti, tj)
    { i: e.i, j: e.j, y: ylms(m.lmax, e.v, r),
      r0: splines(m.h, m.v0[p], m.d0[p], r), r1: splines(m.h, m.v1[p], m.d1[p], r),
      s0: if (m.a0s) splines(m.ah, [m.a0v[p]], [m.a0d[p]], r)[0] else 0,
      s1: if (m.a1s) splines(m.ah1, [m.a1v[p]], [m.a1d[p]], r)[0] else 0,
      z: if (m.zbl) energy(m.par, m.Z[ti], m.Z[tj], r) else 0 }
  }
  pure def density(es: List[EdgeFn], types: List[int], H0: List[int], K: int, lm: int, k: int): int =
    es.foldl(0, (s, e) => s + mul(e.r0[lof(lm) * K + k], e.y[lm]) * H0[types[e.j] * K + k]) / ONE
  pure def colDot(x: List[int], xo: int, W: List[int], n: int, K: int, k: int): int =   // sum_q x[xo+q] W[q*K+k]
    range(0, n).foldl(0, (s, q) => s + x[xo + q] * W[q * K + k]) / ONE
  pure def polynomial(w: List[int], ms: List[List[int]], x: List[int], K: int, k: int): int =
    range(0, ms.length()).foldl(0, (s, t) => s + w[t] * monomial(ms[t], x, K, k)) / ONE
  // first layer: features H1 of a node, [LM*K+k]
  pure def layer1(m: Model, c: Config, ti: int, es: List[EdgeFn]): List[int] = {
    val nlm = (m.lmax + 1) * (m.lmax + 1)
    val K = m.K
    val s0 = es.foldl(ONE, (s, e) => s + e.s0)
    val phi = range(0, nlm * K).foldl([], (l, q) => l.append(density(es, c.types, m.H0, K, q / K, q % K)))
    val A = range(0, nlm * K).foldl([], (l, q) => {
      val a = colDot(phi, q / K * K, m.A0w[ti][lof(q / K)], K, K, q % K)
      l.append(if (m.a0s) div(a, s0) else a) })
    val nLM = (m.Lmax + 1) * (m.Lmax + 1)
    val M = range(0, nLM * K).foldl([], (l, q) => l.append(polynomial(m.M0w[ti][q / K][q % K], m.M0m[q / K], A, K, q % K)))
    range(0, nLM * K).foldl([], (l, q) => l.append(colDot(M, q / K * K, m.H1w.slice(lof(q / K) * K * K, (lof(q / K) + 1) * K * K), K, K, q % K)))
  }
  pure def pairsOf(p: int, l1: int, l2: int): List[(int, int, int)] = {
    val w = 2 * l2 + 1
    range(0, (2 * l1 + 1) * w).foldl([], (a, q) => a.append((p, l1 * l1 + q / w, l2 * l2 + q % w)))
  }
  pure def triples(pl1: List[int], pl2: List[int]): List[(int, int, int)] =
    range(0, pl1.length()).foldl([], (a, p) => a.concat(pairsOf(p, pl1[p], pl2[p])))
  pure def product(es: List[EdgeFn], H1: List[List[int]], ri: int, lm1: int, hi: int): int =
    es.foldl(0, (s, e) => s + mul(e.r1[ri], e.y[lm1]) * H1[e.j][hi]) / ONE
  pure def products(es: List[EdgeFn], H1: List[List[int]], K: int, p: int, lm1: int, lm2: int): List[int] =
    range(0, K).foldl([], (a, k) => a.append(product(es, H1, p * K + k, lm1, lm2 * K + k)))
  pure def addAt(a: List[int], base: int, K: int, cg: int, x: List[int], from: int): List[int] =
    range(0, K).foldl(a, (b, k) => b.replaceAt(base + k, b[base + k] + mul(cg, x[from + k])))
  pure def countOf(l: List[int], x: int): int = l.select(q => q == x).length()
  // second layer: scalar features H2 of a node, [k]
  pure def layer2(m: Model, ti: int, h1: List[int], es: List[EdgeFn], H1: List[List[int]]): List[int] = {
    val K = m.K
    val nlm = (m.lmax + 1) * (m.lmax + 1)
    // products of an edge harmonic and a neighbour feature, one per (path, m1, m2)
    val prods = triples(m.pl1, m.pl2).foldl([], (acc, t) => acc.concat(products(es, H1, K, t._1, t._2, t._3)))
    val nlme = m.pl.foldl(0, (s, l) => s + 2 * l + 1)
    val phi = range(0, m.ccg.length()).foldl(range(0, nlme * K).foldl([], (l, _) => l.append(0)), (acc, q) =>
      addAt(acc, m.cme[q] * K, K, m.ccg[q], prods, m.cll[q] * K))
    val nume = range(0, m.lmax + 1).foldl([], (l, q) => l.append(countOf(m.pl, q)))
    val off = range(0, m.lmax + 1).foldl([0], (l, q) => l.append(l[q] + (2 * q + 1) * nume[q]))
    val s1 = es.foldl(ONE, (s, e) => s + e.s1)
    // (2l+1) x (e,k') times (e,k') x k
    val A = range(0, nlm * K).foldl([], (acc, q) => {
      val lm = q / K
      val l = lof(lm)
      val a = colDot(phi, (off[l] + (lm - l * l) * nume[l]) * K, m.A1w[l], nume[l] * K, K, q % K)
      acc.append(if (m.a1s) div(a, s1) else a) })
    val M = range(0, K).foldl([], (l, k) => l.append(polynomial(m.M1w[ti][k], m.M1m, A, K, k)))
    range(0, K).foldl([], (l, k) => l.append(colDot(h1, 0, m.H2h[ti], K, K, k) + colDot(M, 0, m.H2m, K, K, k)))
  }
  pure def readout(m: Model, ti: int, h1: List[int], h2: List[int]): int = {
    val lin = range(0, m.K).foldl(0, (s, k) => s + m.ro1[k] * h1[k]) / ONE
    val non = range(0, 16).foldl(0, (s, u) => s + mul(m.ro2b[u], mul(m.sc, silu(dot(m.ro2a.slice(u * m.K, (u + 1) * m.K), h2)))))
    m.E0[ti] + lin + non
  }
  // per-node energies of a configuration
  pure def energies(m: Model, c: Config): List[int] = {
    val n = c.types.length()
    val fs = c.edges.foldl([], (l, e) => l.append(edgeFn(m, c, e)))
    val per = range(0, n).foldl([], (l, i) => l.append(fs.foldl([], (a, e) => if (e.i == i) a.append(e) else a)))
    val H1 = range(0, n).foldl([], (l, i) => l.append(layer1(m, c, c.types[i], per[i])))
    range(0, n).foldl([], (l, i) =>
      l.append(readout(m, c.types[i], H1[i], layer2(m, c.types[i], H1[i], per[i], H1))
               + per[i].foldl(0, (s, e) => s + e.z)))
  }
  // derivative of the total energy along a displacement of all edge vectors: central difference,
  // truncation 2^-80, kinks of the piecewise cubics contribute at most 2^-40
  pure val DX = ONE / 2^42
  pure def moved(c: Config, dir: List[List[int]], t: int): Config =
    { types: c.types, edges: range(0, c.edges.length()).foldl([], (l, q) => {
        val e = c.edges[q]
        l.append({ i: e.i, j: e.j, v: [e.v[0] + mul(t, dir[q][0]), e.v[1] + mul(t, dir[q][1]), e.v[2] + mul(t, dir[q][2])] }) }) }
  pure def slopeAlong(m: Model, c: Config, dir: List[List[int]]): int =
    div(sum(energies(m, moved(c, dir, DX))) - sum(energies(m, moved(c, dir, -DX))), 2 * DX)
}

// Random and equivariant model files, random configurations.
module macegen {
  import fix.* from "./fix"
  import zblmath.* from "./zbl"
  import gaunt.* from "./gaunt"
  import macemath.*

  type Shape = { ne: int, K: int, lmax: int, Lmax: int, npts: int, zbl: bool, a0s: bool, a1s: bool, equi: bool, deg: int }

  pure def scaled(seed: int, off: int, n: int, sc: int): List[int] =
    range(0, n).foldl([], (l, i) => l.append(rndInt(seed, off + i, 2097152) * (sc / 1048576) - sc))
  pure def npairs(ne: int): int = ne * (ne + 1) / 2
  pure def tables(seed: int, off: int, np: int, ns: int, n: int, sc: int): List[List[List[int]]] =
    range(0, np).foldl([], (l, p) => l.append(range(0, ns).foldl([], (ll, s) => ll.append(scaled(seed, off + (p * ns + s) * n, n, sc)))))
  pure def positive(seed: int, off: int, np: int, n: int): List[List[int]] =
    range(0, np).foldl([], (l, p) => l.append(range(0, n).foldl([], (a, i) => a.append(ONE / 4 + rndInt(seed, off + p * n + i, 1048576) * (ONE / 2097152)))))

  // ---- couplings ----
  // all (l, l1, l2) with l1, l <= lmax, l2 <= Lmax that couple
  pure def paths(lmax: int, Lmax: int): List[(int, int, int)] =
    range(0, lmax + 1).foldl([], (a, l) => range(0, lmax + 1).foldl(a, (b, l1) => range(0, Lmax + 1).foldl(b, (c, l2) =>
      if ((l + l1 + l2) % 2 == 0 and l <= l1 + l2 and l >= abs(l1 - l2)) c.append((l, l1, l2)) else c)))
  pure def rotate3(ps: List[(int, int, int)], by: int): List[(int, int, int)] =
    range(0, ps.length()).foldl([], (l, q) => l.append(ps[(q + by) % ps.length()]))
  // coupling coefficients: (index of (l,m,e), value, index of (path,m1,m2))
  pure def couplings(ps: List[(int, int, int)], lmax: int): List[(int, int, int)] = {
    val nume = range(0, lmax + 1).foldl([], (l, q) => l.append(ps.foldl(0, (s, x) => if (x._1 == q) s + 1 else s)))
    val off = range(0, lmax + 1).foldl([], (l, q) => l.append(range(0, q).foldl(0, (s, x) => s + (2 * x + 1) * nume[x])))
    range(0, ps.length()).foldl(([], 0), (st, p) => {
      val l = ps[p]._1
      val l1 = ps[p]._2
      val l2 = ps[p]._3
      val e = range(0, p).foldl(0, (s, q) => if (ps[q]._1 == l) s + 1 else s)
      (GAUNT.get((l1, l2, l)).foldl(st._1, (acc, g) => acc.append(
         (off[l] + (l + g._3) * nume[l] + e, g._4, st._2 + (l1 + g._1) * (2 * l2 + 1) + l2 + g._2))),
       st._2 + (2 * l1 + 1) * (2 * l2 + 1)) })._1
  }
  pure def randomCouplings(seed: int, ps: List[(int, int, int)], n: int): List[(int, int, int)] = {
    val nlme = ps.foldl(0, (s, x) => s + 2 * x._1 + 1)
    val nll = ps.foldl(0, (s, x) => s + (2 * x._2 + 1) * (2 * x._3 + 1))
    range(0, n).foldl([], (l, q) => l.append((rndInt(seed, 3 * q, nlme), rnd(seed, 3 * q + 1), rndInt(seed, 3 * q + 2, nll))))
  }
  // ---- polynomials ----
  // an invariant/equivariant polynomial is a list of basis polynomials; each is a map monomial -> coefficient
  pure def ins(mo: List[int], x: int): List[int] =     // insert into a sorted monomial
    mo.select(y => y <= x).append(x).concat(mo.select(y => y > x))
  type Poly = List[int] -> int
  pure def addTo(p: Poly, mo: List[int], v: int): Poly =
    if (p.keys().contains(mo)) p.set(mo, p.get(mo) + v) else p.put(mo, v)
  pure def couple2(l1: int, l2: int, L: int, M: int): Poly =
    GAUNT.get((l1, l2, L)).foldl(Map(), (p, g) =>
      if (g._3 == M) addTo(p, ins([l1 * l1 + l1 + g._1], l2 * l2 + l2 + g._2), g._4) else p)
  pure def couple3(l1: int, l2: int, l12: int, l3: int, L: int, M: int): Poly =
    GAUNT.get((l12, l3, L)).foldl(Map(), (p, g) => if (g._3 != M) p else {
      val q = couple2(l1, l2, l12, g._1)
      q.keys().fold(p, (pp, mo) => addTo(pp, ins(mo, l3 * l3 + l3 + g._2), mul(q.get(mo), g._4))) })
  pure def ok3(a: int, b: int, c: int): bool = (a + b + c) % 2 == 0 and c <= a + b and c >= abs(a - b)
  pure def equiBasis(lmax: int, L: int, M: int, deg: int): List[Poly] = {
    val one: List[Poly] = if (L <= lmax) [Map([L * L + L + M] -> ONE)] else []
    val two: List[Poly] = if (deg < 2) [] else range(0, lmax + 1).foldl([], (a, l1) => range(l1, lmax + 1).foldl(a, (b, l2) =>
      if (ok3(l1, l2, L)) b.append(couple2(l1, l2, L, M)) else b))
    val three: List[Poly] = if (deg < 3) [] else range(0, imin(lmax, 1) + 1).foldl([], (a, l1) => range(l1, imin(lmax, 1) + 1).foldl(a, (b, l2) =>
      range(0, imin(lmax, 1) + 1).foldl(b, (c, l12) => range(0, imin(lmax, 1) + 1).foldl(c, (d, l3) =>
        if (ok3(l1, l2, l12) and ok3(l12, l3, L)) d.append(couple3(l1, l2, l12, l3, L, M)) else d))))
    one.concat(two).concat(three)
  }
  pure def monos(ps: List[Poly]): List[List[int]] =
    ps.foldl([], (acc, p) => p.keys().fold(acc, (a, mo) => if (a.select(z => z == mo).length() > 0) a else a.append(mo)))
  // weights of one channel: random combination of the basis
  pure def combine(seed: int, off: int, ps: List[Poly], ms: List[List[int]]): List[int] =
    ms.foldl([], (l, mo) => l.append(range(0, ps.length()).foldl(0, (s, q) =>
      if (ps[q].keys().contains(mo)) s + mul(rnd(seed, off + q), ps[q].get(mo)) else s)))
  pure def randomMonos(seed: int, nlm: int, deg: int, n: int): List[List[int]] =
    range(0, n).foldl([[rndInt(seed, 0, nlm)]], (acc, q) => {
      val d = 1 + rndInt(seed, 10 * q + 1, deg)
      val mo = range(0, d).foldl([], (l, i) => ins(l, rndInt(seed, 10 * q + 2 + i, nlm)))
      if (acc.select(z => z == mo).length() > 0) acc else acc.append(mo) })

  pure def dyadic(x: int): int = x - x % (ONE / 2^45)

  pure val ELEMENTS = [1, 8, 6, 26, 13, 14, 20, 2, 11, 92, 79, 3, 47, 55, 17, 33, 5, 74, 7, 89, 30, 9, 83, 40, 12]
  // The density tables are positive so that the scaling never vanishes.
  pure def mkModel(seed: int, s: Shape): Model = {
    val K = s.K
    val nlm = (s.lmax + 1) * (s.lmax + 1)
    val nLM = (s.Lmax + 1) * (s.Lmax + 1)
    val np = npairs(s.ne)
    val ps = rotate3(paths(s.lmax, s.Lmax), if (s.equi) 0 else rndInt(seed, 77, 5))
    val cs = if (s.equi) couplings(ps, s.lmax) else randomCouplings(seed + 5, ps, 12 + rndInt(seed, 78, 20))
    val nume = range(0, s.lmax + 1).foldl([], (l, q) => l.append(ps.foldl(0, (t, x) => if (x._1 == q) t + 1 else t)))
    val eb0 = if (s.equi) range(0, nLM).foldl([], (l, LM) => l.append(equiBasis(s.lmax, lof(LM), LM - lof(LM) * lof(LM) - lof(LM), s.deg))) else []
    val eb1 = if (s.equi) equiBasis(s.lmax, 0, 0, s.deg) else []
    val m0m = if (s.equi) eb0.foldl([], (l, b) => l.append(monos(b)))
              else range(0, nLM).foldl([], (l, LM) => l.append(randomMonos(seed + 100 + LM, nlm, s.deg, 6)))
    val m1m = if (s.equi) monos(eb1) else randomMonos(seed + 99, nlm, s.deg, 6)
    val h = if (s.npts == 9) ONE / 2 else dyadic(rat(4, s.npts - 1))
    val rc = (s.npts - 1) * h
    { ne: s.ne, K: K, rcut: rc, lmax: s.lmax, Lmax: s.Lmax,
      Z: range(0, s.ne).foldl([], (l, i) => l.append(ELEMENTS[(i + rndInt(seed, 79, if (s.ne > 9) 25 else 9)) % (if (s.ne > 9) 25 else 9)])),
      E0: scaled(seed, 200, s.ne, 4 * ONE), zbl: s.zbl,
      par: { expo: dyadic(rat(3, 10)), pref: dyadic(rat(4543, 10000)),
             c: [dyadic(rat(1818, 10000)), dyadic(rat(5099, 10000)), dyadic(rat(2802, 10000)), dyadic(rat(28, 1000))],
             cov: range(0, 93).foldl([], (l, i) => l.append(ONE / 4 + rndInt(seed, 300 + i, 1024) * (ONE / 1024))), p: 5 + rndInt(seed, 80, 2) },
      h: h,
      v0: tables(seed, 1000, np, (s.lmax + 1) * K, s.npts, ONE), d0: tables(seed, 200000, np, (s.lmax + 1) * K, s.npts, ONE),
      v1: tables(seed, 400000, np, ps.length() * K, s.npts, ONE), d1: tables(seed, 600000, np, ps.length() * K, s.npts, ONE),
      H0: scaled(seed, 800000, s.ne * K, ONE),
      A0w: range(0, s.ne).foldl([], (l, a) => l.append(range(0, s.lmax + 1).foldl([], (ll, q) => ll.append(scaled(seed, 810000 + (a * 4 + q) * K * K, K * K, ONE))))),
      // the density tables have grids of their own
      a0s: s.a0s, a1s: s.a1s, ah: dyadic(rc / (s.npts + 1)) + ONE / 2^40, ah1: dyadic(rc / s.npts) + ONE / 2^30,
      a0v: positive(seed, 820000, np, s.npts + 2), a0d: tables(seed, 830000, 1, np, s.npts + 2, ONE / 4)[0],
      a1v: positive(seed, 840000, np, s.npts + 1), a1d: tables(seed, 850000, 1, np, s.npts + 1, ONE / 4)[0],
      M0m: m0m,
      M0w: range(0, s.ne).foldl([], (l, a) => l.append(range(0, nLM).foldl([], (ll, LM) => ll.append(range(0, K).foldl([], (lll, k) => lll.append(
             if (s.equi) combine(seed, 860000 + (a * 4 + lof(LM)) * 400 + k * 40, eb0[LM], m0m[LM])
             else scaled(seed, 860000 + ((a * nLM + LM) * K + k) * 10, m0m[LM].length(), ONE))))))),
      H1w: scaled(seed, 900000, (s.Lmax + 1) * K * K, ONE),
      pl: ps.foldl([], (l, x) => l.append(x._1)), pl1: ps.foldl([], (l, x) => l.append(x._2)), pl2: ps.foldl([], (l, x) => l.append(x._3)),
      cme: cs.foldl([], (l, x) => l.append(x._1)), ccg: cs.foldl([], (l, x) => l.append(x._2)), cll: cs.foldl([], (l, x) => l.append(x._3)),
      A1w: range(0, s.lmax + 1).foldl([], (l, q) => l.append(scaled(seed, 910000 + 1000 * q, nume[q] * K * K, ONE / 2))),
      M1m: m1m,
      M1w: range(0, s.ne).foldl([], (l, a) => l.append(range(0, K).foldl([], (ll, k) => ll.append(
             if (s.equi) combine(seed, 930000 + (a * 20 + k) * 40, eb1, m1m)
             else scaled(seed, 930000 + (a * K + k) * 10, m1m.length(), ONE))))),
      H2h: range(0, s.ne).foldl([], (l, a) => l.append(scaled(seed, 950000 + a * 1000, K * K, ONE))),
      H2m: scaled(seed, 960000, K * K, ONE), ro1: scaled(seed, 970000, K, ONE),
      ro2a: scaled(seed, 971000, 16 * K, ONE), ro2b: scaled(seed, 972000, 16, ONE), sc: dyadic(rat(1679, 1000)) }
  }

  // ---- configurations ----
  // an edge vector shorter than the cutoff and not too short; style 0 is axis-parallel and may sit on a knot
  pure def edgeVec(seed: int, q: int, m: Model, style: int): List[int] =
    if (style == 0) {
      val ax = rndInt(seed, 8 * q + 1, 3)
      val len = (if (rndInt(seed, 8 * q + 2, 2) == 0) 1 else -1) * m.h * (1 + rndInt(seed, 8 * q + 3, m.v0[0][0].length() - 2))
      [if (ax == 0) len else 0, if (ax == 1) len else 0, if (ax == 2) len else 0]
    } else {
      val a = 9 * m.rcut / 16
      val big = a - a % (ONE / 2^20)
      val f = if (style == 1) big / 4 else big
      val v = [mul(f, rnd(seed, 8 * q + 1)), mul(f, rnd(seed, 8 * q + 2)), mul(f, rnd(seed, 8 * q + 3))]
      if (vlen(v) < m.rcut / 16) [m.rcut / 8 - (m.rcut / 8) % (ONE / 2^20), v[1], v[2]] else v
    }
  // few distinct lengths: one of two vectors with its coordinates exchanged or negated
  pure def twinVec(seed: int, k: int, m: Model): List[int] = {
    val v = edgeVec(seed, rndInt(seed, 9500 + k, 2), m, 2)
    val by = rndInt(seed, 9600 + k, 3)
    val sg = rndInt(seed, 9700 + k, 4)
    [if (sg % 2 == 1) -v[by % 3] else v[by % 3], if (sg / 2 == 1) -v[(by + 1) % 3] else v[(by + 1) % 3], if (sg == 3) -v[(by + 2) % 3] else v[(by + 2) % 3]]
  }
  // arbitrary directed neighbour lists, grouped by centre: what the evaluator is given
  pure def mkConfig(seed: int, m: Model, n: int, maxdeg: int, style: int): Config = {
    val types = range(0, n).foldl([], (l, i) => l.append(rndInt(seed, 5000 + i, m.ne)))
    { types: types,
      edges: range(0, n).foldl([], (l, i) => {
        val d = rndInt(seed, 6000 + i, maxdeg + 1)
        range(0, d).foldl(l, (ll, q) => ll.append({ i: i, j: rndInt(seed, 7000 + i * 20 + q, n),
             v: if (style == 6) twinVec(seed, i * 20 + q, m)
                else edgeVec(seed + i, q, m, if (style < 3) style else rndInt(seed, 8000 + i * 20 + q, 3)) })) }) }
  }
}
