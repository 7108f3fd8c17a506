// Conversion of a trained network into a model file.  The network is specified as the training code
// evaluates it -- layer by layer, with its own normalisations, unfused weights, exact radial functions,
// one set of read-outs per head -- and the observation of a conversion is what the evaluator computes
// from the file that was written: the energies of the original network.
module network {
  import fix.* from "./fix"
  import zblmath.* from "./zbl"
  import macemath.* from "./macemodel"

  type UEntry = { m: int, lms: List[int], eta: int, v: int }
  type USet = { neta: int, es: List[UEntry] }
  type Head = { name: str, E0: List[int], scale: int, shift: int, ro1: List[int], ro2a: List[int], ro2b: List[int] }
  type CG = { p: int, m1: int, m2: int, m: int, v: int }
  type Net = {
    ne: int, K: int, Lmax: int, rc: int, Z: List[int],
    den0: bool, den1: bool, avg0: int, avg1: int,            // scaled by a learned density, or by a constant
    emb: List[int], up0: List[int], lin0: List[List[int]], skip0: List[List[int]],
    pc: List[List[int]], c0: List[int], c1: List[int], cd0: List[int], cd1: List[int],
    pl: List[int], pl1: List[int], pl2: List[int], cg: List[CG],
    U: List[List[USet]], W0: List[List[List[int]]], W1: List[List[int]],
    p0: List[List[int]], up1: List[List[int]], lin1: List[List[int]], skip1: List[int], p1: List[int],
    heads: List[Head], sc: int, zbl: bool, par: Par
  }
  // radial basis of an element pair: (1-u)^2 u^q times a coefficient, u = r/rc, q = 0, 1
  pure def basis(n: Net, a: int, b: int, r: int): List[int] = {
    val u = div(r, n.rc)
    val w = mul(ONE - u, ONE - u)
    val c = n.pc[pair(n.ne, a, b)]
    [mul(c[0], w), mul(c[1], mul(w, u))]
  }
  pure def radials(b: List[int], c: List[int], cols: int): List[int] =
    range(0, cols).foldl([], (l, q) => l.append((b[0] * c[q] + b[1] * c[cols + q]) / ONE))
  pure def tanhsq(g: int): int = { val e = exp(-2 * mul(g, g)) div(ONE - e, ONE + e) }
  // row vector times K-column matrix, divided by the square root of a count
  pure def lin(x: List[int], xo: int, W: List[int], rows: int, K: int, count: int): List[int] = {
    val s = sqrt(fx(count))
    range(0, K).foldl([], (l, k) => l.append(div(colDot(x, xo, W, rows, K, k), s)))
  }
  pure def slab(w: List[int], ne: int, K: int, a: int): List[int] =   // [:, a, :] of a [K, ne, K] array
    range(0, K).foldl([], (l, k) => l.concat(w.slice((k * ne + a) * K, (k * ne + a + 1) * K)))
  pure def contract(u: List[USet], W: List[List[int]], a: int, m: int, A: List[int], K: int, k: int): int =
    range(0, 3).foldl(0, (s, c) => s + u[c].es.foldl(0, (t, e) => if (e.m != m) t
      else t + mul(mul(W[c][(a * u[c].neta + e.eta) * K + k], e.v), monomial(e.lms, A, K, k))))

  type EF = { i: int, j: int, y: List[int], r0: List[int], r1: List[int], s0: int, s1: int, z: int }
  pure def edgeOf(n: Net, c: Config, e: Edge): EF = {
    val r = vlen(e.v)
    val a = c.types[e.i]
    val b = c.types[e.j]
    val f = basis(n, a, b, r)
    { i: e.i, j: e.j, y: ylms(3, e.v, r), r0: radials(f, n.c0, 4 * n.K), r1: radials(f, n.c1, n.pl.length() * n.K),
      s0: tanhsq(dot(f, n.cd0)), s1: tanhsq(dot(f, n.cd1)),
      z: if (n.zbl) energy(n.par, n.Z[a], n.Z[b], r) else 0 }
  }
  // features after the first product, [LM*K+k]
  pure def first(n: Net, types: List[int], a: int, es: List[EF]): List[int] = {
    val K = n.K
    val x = types.foldl([], (l, t) => l.append(lin(n.emb, t * K, n.up0, K, K, n.ne * K)))
    val phi = range(0, 16 * K).foldl([], (l, q) => l.append(
      es.foldl(0, (s, e) => s + mul(mul(e.r0[lof(q / K) * K + q % K], e.y[q / K]), x[e.j][q % K]))))
    val d = if (n.den0) es.foldl(ONE, (s, e) => s + e.s0) else n.avg0
    val A = range(0, 16).foldl([], (l, lm) => {
      val msg = lin(phi, lm * K, n.lin0[lof(lm)], K, K, K)
      l.concat(lin(msg.foldl([], (q, v) => q.append(div(v, d))), 0, slab(n.skip0[lof(lm)], n.ne, K, a), K, K, n.ne * K)) })
    range(0, (n.Lmax + 1) * (n.Lmax + 1)).foldl([], (l, LM) => {
      val L = lof(LM)
      val M = range(0, K).foldl([], (q, k) => q.append(contract(n.U[L], n.W0[L], a, LM - L * L, A, K, k)))
      l.concat(lin(M, 0, n.p0[L], K, K, K)) })
  }
  // scalar features after the second product
  pure def second(n: Net, a: int, h: List[int], es: List[EF], u: List[List[int]]): List[int] = {
    val K = n.K
    // message of path p, component m, channel k
    val msg = range(0, n.pl.length()).foldl([], (l, p) => l.concat(range(0, (2 * n.pl[p] + 1) * K).foldl([], (q, mk) => q.append(
      n.cg.foldl(0, (s, g) => if (g.p != p or g.m != mk / K) s else s + es.foldl(0, (t, e) => t +
        mul(mul(e.r1[p * K + mk % K], g.v), mul(e.y[n.pl1[p] * n.pl1[p] + g.m1], u[e.j][(n.pl2[p] * n.pl2[p] + g.m2) * K + mk % K]))))))))
    val off = range(0, n.pl.length()).foldl([0], (l, p) => l.append(l[p] + (2 * n.pl[p] + 1) * K))
    val d = if (n.den1) es.foldl(ONE, (s, e) => s + e.s1) else n.avg1
    val A = range(0, 16).foldl([], (l, lm) => {
      val L = lof(lm)
      val ps = range(0, n.pl.length()).foldl([], (q, p) => if (n.pl[p] == L) q.append(p) else q)
      val x = ps.foldl([], (q, p) => q.concat(msg.slice(off[p] + (lm - L * L) * K, off[p] + (lm - L * L + 1) * K)))
      l.concat(lin(x, 0, n.lin1[L], ps.length() * K, K, ps.length() * K).foldl([], (q, v) => q.append(div(v, d)))) })
    val M = range(0, K).foldl([], (q, k) => q.append(contract(n.U[0], n.W1, a, 0, A, K, k)))
    val b = lin(M, 0, n.p1, K, K, K)
    val s = lin(h, 0, slab(n.skip1, n.ne, K, a), K, K, n.ne * K)
    range(0, K).foldl([], (q, k) => q.append(b[k] + s[k]))
  }
  pure def netEnergies(n: Net, hd: Head, c: Config): List[int] = {
    val K = n.K
    val N = c.types.length()
    val fs = c.edges.foldl([], (l, e) => l.append(edgeOf(n, c, e)))
    val per = range(0, N).foldl([], (l, i) => l.append(fs.select(e => e.i == i)))
    val h = range(0, N).foldl([], (l, i) => l.append(first(n, c.types, c.types[i], per[i])))
    val u = h.foldl([], (l, x) => l.append(range(0, (n.Lmax + 1) * (n.Lmax + 1)).foldl([], (q, LM) =>
      q.concat(lin(x, LM * K, n.up1[lof(LM)], K, K, K)))))
    range(0, N).foldl([], (l, i) => {
      val h2 = second(n, c.types[i], h[i], per[i], u)
      val e1 = div(range(0, K).foldl(0, (s, k) => s + mul(h[i][k], hd.ro1[k])), sqrt(fx(K)))
      val e2 = range(0, 16).foldl(0, (s, q) => {
        val z = div(range(0, K).foldl(0, (t, k) => t + mul(h2[k], hd.ro2a[k * 16 + q])), sqrt(fx(K)))
        s + mul(hd.ro2b[q], mul(n.sc, silu(z))) / 4 })
      val z = per[i].foldl(0, (s, e) => s + e.z)
      l.append(mul(hd.scale, e1 + e2 + z) + hd.shift + hd.E0[c.types[i]]) })
  }
}

module netgen {
  import fix.* from "./fix"
  import zblmath.* from "./zbl"
  import macemath.* from "./macemodel"
  import macegen.* from "./macemodel"
  import network.*

  pure val SYMBOL = Map(1 -> "H", 8 -> "O", 6 -> "C", 26 -> "Fe", 13 -> "Al", 14 -> "Si", 20 -> "Ca", 92 -> "U", 7 -> "N", 79 -> "Au",
                        2 -> "He", 3 -> "Li", 4 -> "Be", 5 -> "B", 9 -> "F", 10 -> "Ne")
  pure val POOL = [1, 8, 6, 26, 13, 14, 20, 92, 7, 79]
  type Dim = { ne: int, K: int, Lmax: int, den0: bool, den1: bool, zbl: bool, nh: int, sorted: bool }

  // a channel-mixing matrix that can be inverted safely
  pure def mixer(seed: int, off: int, K: int): List[int] = range(0, K * K).foldl([], (l, q) =>
    l.append(if (q / K == q % K) (if (rndInt(seed, off + q, 2) == 0) 3 * ONE / 2 else -(5 * ONE / 4)) else rnd(seed, off + q) / 4))
  pure def srt(l: List[int]): List[int] = l.foldl([], (a, x) => a.select(y => y <= x).append(x).concat(a.select(y => y > x)))
  pure def uval(seed: int, q: int): int = {
    val r = rndInt(seed, q, 9)
    if (r == 0) ONE / 2^16 else if (r < 5) r * ONE / 4 else -(r - 3) * ONE / 4 }
  // sparse symmetrised products: every (component, weight) has an entry, some monomials come in several orders
  pure def uset(seed: int, L: int, deg: int): USet = {
    val neta = 1 + (if (deg == 1) 0 else rndInt(seed, 1, 3))
    { neta: neta, es: range(0, (2 * L + 1) * neta).foldl([], (l, q) => {
        val lms = range(0, deg).foldl([], (a, i) => a.append(rndInt(seed, 100 + 10 * q + i, 16)))
        val m = q / neta
        val eta = q % neta
        val one = l.append({ m: m, lms: lms, eta: eta, v: uval(seed, 500 + q) })
        if (deg == 1) one else {
          val turned = lms.tail().append(lms.head())
          val two = if (turned == lms or rndInt(seed, 600 + q, 3) == 0) one
                    else one.append({ m: m, lms: turned, eta: eta, v: if (rndInt(seed, 700 + q, 5) == 0) -uval(seed, 500 + q) else uval(seed, 800 + q) })
          // one shared monomial per component, met by several weights
          two.append({ m: m, lms: range(0, deg).foldl([], (a, i) => a.append((m + 5 * i) % 16)), eta: eta, v: uval(seed, 900 + q) })
        } }).foldl([], (a, e) => if (a.select(x => x.m == e.m and x.lms == e.lms and x.eta == e.eta).length() > 0) a else a.append(e)) }
  }
  pure def mkNet(seed: int, d: Dim): Net = {
    val K = d.K
    val np = npairs(d.ne)
    val start = rndInt(seed, 1, 10)
    // elements far apart, or neighbours in the periodic table
    val near = rndInt(seed, 6, 2) == 0
    val zs = range(0, d.ne).foldl([], (l, i) => l.append(if (near) 1 + (start + i) % 10 else POOL[(start + i * 3) % 10]))
    val ps = paths(3, d.Lmax)
    val nume = range(0, 4).foldl([], (l, q) => l.append(ps.foldl(0, (t, x) => if (x._1 == q) t + 1 else t)))
    val U = range(0, d.Lmax + 1).foldl([], (l, L) => l.append(range(0, 3).foldl([], (q, c) => q.append(uset(seed + 1000 * L + 100 * c, L, c + 1)))))
    { ne: d.ne, K: K, Lmax: d.Lmax, rc: [4 * ONE, 5 * ONE, 9 * ONE / 2][rndInt(seed, 2, 3)],
      Z: if (d.sorted) srt(zs) else zs,
      den0: d.den0, den1: d.den1, avg0: ONE + rndInt(seed, 3, 64) * (ONE / 16), avg1: ONE + rndInt(seed, 4, 64) * (ONE / 16),
      emb: scaled(seed, 1000, d.ne * K, 2 * ONE), up0: scaled(seed, 2000, K * K, 2 * ONE),
      lin0: range(0, 4).foldl([], (l, q) => l.append(scaled(seed, 3000 + 100 * q, K * K, 2 * ONE))),
      skip0: range(0, 4).foldl([], (l, q) => l.append(scaled(seed, 4000 + 200 * q, K * d.ne * K, 2 * ONE))),
      pc: range(0, np).foldl([], (l, q) => l.append(scaled(seed, 5000 + 2 * q, 2, 2 * ONE))),
      c0: scaled(seed, 6000, 8 * K, 2 * ONE), c1: scaled(seed, 7000, 2 * ps.length() * K, 2 * ONE),
      cd0: scaled(seed, 8000, 2, 2 * ONE), cd1: scaled(seed, 8100, 2, 2 * ONE),
      pl: ps.foldl([], (l, x) => l.append(x._1)), pl1: ps.foldl([], (l, x) => l.append(x._2)), pl2: ps.foldl([], (l, x) => l.append(x._3)),
      cg: range(0, ps.length()).foldl([], (l, p) => range(0, 2 + rndInt(seed, 8200 + p, 2)).foldl(l, (q, i) => {
            val g = { p: p, m1: rndInt(seed, 8300 + 10 * p + i, 2 * ps[p]._2 + 1), m2: rndInt(seed, 8600 + 10 * p + i, 2 * ps[p]._3 + 1),
                      m: rndInt(seed, 8900 + 10 * p + i, 2 * ps[p]._1 + 1), v: uval(seed, 9200 + 10 * p + i) }
            if (q.select(x => x.p == p and x.m1 == g.m1 and x.m2 == g.m2 and x.m == g.m).length() > 0) q else q.append(g) })),
      U: U,
      W0: range(0, d.Lmax + 1).foldl([], (l, L) => l.append(range(0, 3).foldl([], (q, c) => q.append(scaled(seed, 10000 + 1000 * L + 200 * c, d.ne * U[L][c].neta * K, 2 * ONE))))),
      W1: range(0, 3).foldl([], (q, c) => q.append(scaled(seed, 14000 + 200 * c, d.ne * U[0][c].neta * K, 2 * ONE))),
      p0: range(0, d.Lmax + 1).foldl([], (l, L) => l.append(scaled(seed, 15000 + 100 * L, K * K, 2 * ONE))),
      up1: range(0, d.Lmax + 1).foldl([], (l, L) => l.append(mixer(seed, 16000 + 100 * L, K))),
      lin1: range(0, 4).foldl([], (l, q) => l.append(scaled(seed, 17000 + 1000 * q, nume[q] * K * K, 2 * ONE))),
      skip1: scaled(seed, 22000, K * d.ne * K, 2 * ONE), p1: scaled(seed, 23000, K * K, 2 * ONE),
      heads: range(0, d.nh).foldl([], (l, q) => l.append({
        name: if (d.nh == 1) "Default" else if (q == rndInt(seed, 5, 3)) "pt_head" else ["first", "second", "third"][q],
        E0: scaled(seed, 24000 + 100 * q, d.ne, 4 * ONE), scale: ONE / 2 + rndInt(seed, 24050 + q, 32) * (ONE / 32),
        shift: rnd(seed, 24060 + q), ro1: scaled(seed, 25000 + 100 * q, K, 2 * ONE),
        ro2a: scaled(seed, 26000 + 100 * q, 16 * K, 2 * ONE), ro2b: scaled(seed, 27000 + 100 * q, 16, 2 * ONE) })),
      sc: dyadic(rat(1679, 1000)), zbl: d.zbl,
      par: { expo: dyadic(rat(3, 10)), pref: dyadic(rat(4543, 10000)),
             c: [dyadic(rat(1818, 10000)), dyadic(rat(5099, 10000)), dyadic(rat(2802, 10000)), dyadic(rat(28, 1000))],
             cov: range(0, 93).foldl([], (l, i) => l.append(ONE / 4 + rndInt(seed, 300 + i, 1024) * (ONE / 1024))), p: 5 + rndInt(seed, 80, 2) }
    }
  }
  // an edge of length node*rc/(pts-1), along an axis or the direction of a rational unit vector; or any edge
  pure def dirOf(q: int): List[int] = {
    val s = if (q % 2 == 0) ONE else -ONE
    val w = q / 2
    if (w == 0) [s, 0, 0] else if (w == 1) [0, s, 0] else if (w == 2) [0, 0, s]
    else if (w == 3) [2 * s / 3, ONE / 3, -(2 * ONE / 3)] else if (w == 4) [s / 3, -(2 * ONE / 3), 2 * ONE / 3]
    else if (w == 5) [3 * s / 5, 0, 4 * ONE / 5] else [-(2 * s / 7), 6 * ONE / 7, 3 * ONE / 7] }
  pure def netEdge(seed: int, q: int, n: Net, pts: int, free: bool): List[int] = {
    val r = if (free) { val x = n.rc / 16 + mul(7 * n.rc / 8, abs(rnd(seed, 10 * q + 1))) x - x % (ONE / 2^40) }
            else n.rc * (1 + rndInt(seed, 10 * q + 2, pts - 2)) / (pts - 1)
    dirOf(rndInt(seed, 10 * q + 3, 14)).foldl([], (l, x) => l.append(mul(x, r)))
  }
  // types are positions in the list of selected elements; `of` gives the network's own positions
  pure def netConf(seed: int, n: Net, nsel: int, N: int, deg: int, pts: int, free: bool): Config =
    { types: range(0, N).foldl([], (l, i) => l.append(rndInt(seed, 5000 + i, nsel))),
      edges: range(0, N).foldl([], (l, i) => range(0, rndInt(seed, 6000 + i, deg + 1)).foldl(l, (ll, q) =>
        ll.append({ i: i, j: rndInt(seed, 7000 + i * 20 + q, N), v: netEdge(seed + i, q, n, pts, free) }))) }
}

// Requests: convert a network (any selection of elements, any head, by function or command), then evaluate
// structures with the file.  Several conversions follow each other in one process.
module extract {
  import fix.* from "./fix"
  import macemath.* from "./macemodel"
  import network.*
  import netgen.*

  type Want = { kind: str, Z: int, txt: str }          // an element as number, as digits, as symbol
  type Ask = { cli: bool, none: bool, species: List[Want], head: str, attr: bool, pts: int, f64: bool, pair: bool, old: bool, outfile: bool, fault: str }
  type Act = { op: str, net: List[Net], ask: Ask, ok: bool, Z: List[int], headUsed: int, conf: Config, out: List[int], rough: bool, dim: Dim }
  var net: Net
  var cur: { ok: bool, sel: List[int], head: int, pts: int, dim: Dim }      // the file last written; sel: positions in the network
  var act: Act

  pure val NOASK: Ask = { cli: false, none: true, species: [], head: "", attr: false, pts: 0, f64: true, pair: false, old: false, outfile: false, fault: "" }
  pure val NOCONF: Config = { types: [], edges: [] }
  pure val B = Set(true, false)

  pure def indexOf(l: List[int], x: int): int = range(0, l.length()).foldl(-1, (r, i) => if (r < 0 and l[i] == x) i else r)
  // the head that is kept: the one asked for, by default the first that is not the pre-training head
  pure def headOf(n: Net, want: str): int =
    if (n.heads.length() == 1) 0
    else range(0, n.heads.length()).foldl(-1, (r, i) =>
      if (r < 0 and (if (want == "") n.heads[i].name != "pt_head" else n.heads[i].name == want)) i else r)

  pure def spell(Z: int, how: int): Want =
    if (how == 0) { kind: "number", Z: Z, txt: "" } else if (how == 1) { kind: "digits", Z: Z, txt: "" }
    else { kind: "symbol", Z: Z, txt: SYMBOL.get(Z) }

  action request(n: Net, d: Dim, rare: int): bool = {
    nondet seed = 0.to(10^12).oneOf()
    nondet cli = Set(false, false, true).oneOf()
    nondet mode = Set("all", "some", "some2", "numbers", "symbols", "absent", "nonsense").oneOf()
    nondet hwant = Set("", "", "first", "second", "pt_head", "nobody").oneOf()
    nondet pts = Set(5, 9, 20, 60, 256).oneOf()
    nondet flags = tuples(B, B, B, B, B).oneOf()
    nondet fault = Set("", "one layer", "three layers", "first block", "second block", "blocks swapped", "l_max 2", "l_max 4", "other repulsion", "singular").oneOf()
    nondet faulty = 0.to(rare).oneOf()
    // an unusual request or an unsupported network, rarely both
    val f = if (faulty == 0) fault else ""
    val mo = if (faulty > 1 and (mode == "absent" or mode == "nonsense")) "some" else mode
    val hd = if (faulty > 1 and hwant == "nobody") "" else hwant
    val order = range(0, n.ne).foldl([], (l, i) => {
      val at = rndInt(seed, 10 + i, i + 1)
      l.slice(0, at).append(i).concat(l.slice(at, l.length())) })
    val count = if (mo == "all") n.ne else 1 + rndInt(seed, 30, n.ne)
    val picked = order.slice(0, count)
    val named = picked.foldl([], (l, i) => l.append(spell(n.Z[i],
      if (mo == "symbols") 2 else if (mo == "numbers") (if (cli) 1 else 0)
      else if (cli) 1 + rndInt(seed, 40, 2) else rndInt(seed, 40 + i, 3))))
    val at = rndInt(seed, 60, count + 1)
    val extra = if (mo == "absent") { val z = POOL.select(q => indexOf(n.Z, q) < 0)[0] [spell(z, if (named[0].kind == "symbol") 2 else 1)] }
                else if (mo == "nonsense") [{ kind: "symbol", Z: 0, txt: ["Qq", "fe", "X1", "hydrogen"][rndInt(seed, 61, 4)] }] else []
    val none = mo == "all" and flags._1
    val species = if (none) [] else named.slice(0, at).concat(extra).concat(named.slice(at, count))
    val p = if (cli or flags._3) 256 else pts
    val h = headOf(n, hd)
    val ok = f == "" and mo != "absent" and mo != "nonsense" and h >= 0
    val sel = range(0, n.ne).foldl([], (l, i) => if (indexOf(picked, i) >= 0) l.append(i) else l)
    val Zs = srt(sel.foldl([], (l, i) => l.append(n.Z[i])))
    all {
      net' = n,
      cur' = { ok: ok, sel: Zs.foldl([], (l, z) => l.append(indexOf(n.Z, z))), head: h, pts: p, dim: d },
      act' = { op: "convert", net: [n], ok: ok, Z: Zs, headUsed: h, conf: NOCONF, out: [], rough: false, dim: d,
               ask: { cli: cli, none: none, species: species, head: hd, attr: flags._2, pts: if (cli or flags._3) 0 else pts,
                      f64: flags._4, pair: flags._5, old: rndInt(seed, 70, 2) == 0, outfile: rndInt(seed, 71, 2) == 0, fault: f } }
    }
  }
  action convert(ds: Set[Dim], rare: int): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet d = ds.oneOf()
    request(mkNet(seed, d), d, rare)
  }
  // the same network again, asked for differently
  action again: bool = all { act.op == "evaluate", request(net, cur.dim, 3) }
  action evaluate: bool = all {
    cur.ok,
    nondet seed = 0.to(10^15).oneOf()
    nondet N = Set(1, 2, 3).oneOf()
    nondet deg = Set(1, 2).oneOf()
    nondet free = B.oneOf()
    val den = net.den0 or net.den1
    val loose = free and (not(den) or cur.pts == 256)
    val c = netConf(seed, net, cur.sel.length(), N, deg, cur.pts, loose)
    val own = { types: c.types.foldl([], (l, t) => l.append(cur.sel[t])), edges: c.edges }
    all { net' = net, cur' = cur,
          act' = { op: "evaluate", net: [], ask: NOASK, ok: true, Z: [], headUsed: cur.head, conf: c,
                   out: netEnergies(net, net.heads[cur.head], own), rough: loose and den, dim: cur.dim } }
  }
  pure val SMALL: Set[Dim] = tuples(Set(1, 2, 3), Set(1, 2, 3), Set(0, 1), B, B, B, Set(1, 3), B).map(t =>
    { ne: t._1, K: t._2, Lmax: t._3, den0: t._4, den1: t._5, zbl: t._6, nh: t._7, sorted: t._8 })
  pure val HIGH: Set[Dim] = tuples(Set(1, 2, 4), Set(1, 2), Set(2), B, B, B, Set(1, 2), B).map(t =>
    { ne: t._1, K: t._2, Lmax: t._3, den0: t._4, den1: t._5, zbl: t._6, nh: t._7, sorted: t._8 })
  action init = convert(SMALL, 3)
  action step = any { convert(SMALL, 3), again, evaluate, evaluate }
  action initHigh = convert(HIGH, 3)
  action stepHigh = any { convert(HIGH, 3), again, evaluate, evaluate }
  // networks and requests that are to be refused
  pure val REFUSED: Set[Dim] = SMALL.filter(d => d.K > 1 and d.nh == 1)
  action initFault = convert(REFUSED, 0)
  action stepFault = convert(REFUSED, 0)
  val ok = act.op == "convert" implies (act.ok implies act.Z.length() > 0)
}
