// Screened nuclear (ZBL) repulsion with a smooth polynomial cut-off at the sum of covalent radii.
module zblmath {
  import fix.* from "./fix"
  // pref, expo: prefactor and exponent of the screening length; c: 4 coefficients; cov: radii by Z
  type Par = { expo: int, pref: int, c: List[int], cov: List[int], p: int }
  pure val EXPS = [rat(-32, 10), rat(-9423, 10000), rat(-4028, 10000), rat(-2016, 10000)]
  pure val COULOMB = rat(143996, 10000)

  pure def envelope(r: int, rmax: int, p: int): int = if (r >= rmax) 0 else {
    val x = div(r, rmax)
    val xp = fpowi(x, p)
    ONE - (p + 1) * (p + 2) * xp / 2 + p * (p + 2) * mul(xp, x) - p * (p + 1) * mul(mul(xp, x), x) / 2
  }
  pure def screening(q: Par, zu: int, zv: int): int =
    div(mul(q.pref, rat(529, 1000)), fpow(fx(zu), q.expo) + fpow(fx(zv), q.expo))
  pure def bare(q: Par, zu: int, zv: int, r: int, a: int): int = {
    val x = div(r, a)
    val phi = range(0, 4).foldl(0, (s, i) => s + mul(q.c[i], exp(mul(EXPS[i], x))))
    div(mul(zu * zv * COULOMB, phi), r)
  }
  // energy assigned to one end of the pair (half of the pair energy)
  pure def energy(q: Par, zu: int, zv: int, r: int): int = {
    val rmax = q.cov[zu] + q.cov[zv]
    if (r >= rmax) 0
    else mul(bare(q, zu, zv, r, screening(q, zu, zv)), envelope(r, rmax, q.p)) / 2
  }
  pure def emag(q: Par, zu: int, zv: int, r: int): int = {
    val a = screening(q, zu, zv)
    val x = div(r, a)
    val phi = range(0, 4).foldl(0, (s, i) => s + abs(mul(q.c[i], exp(mul(EXPS[i], x)))))
    // plus what the arithmetic of this specification resolves
    (q.p + 1) * (q.p + 2) * div(mul(zu * zv * COULOMB, phi), r) + zu * zv * (ONE / 2^50)
  }
  // derivative of the energy with respect to the distance: central difference of the (exactly
  // computed) energy, with a step far below anything the doubles of the implementation resolve
  pure val DR = ONE / 2^33
  pure def slope(q: Par, zu: int, zv: int, r: int): int =
    div(energy(q, zu, zv, r + DR) - energy(q, zu, zv, r - DR), 2 * DR)
  pure def smag(q: Par, zu: int, zv: int, r: int): int = {
    val a = screening(q, zu, zv)
    mul(emag(q, zu, zv, r), div(ONE, r) + 4 * div(ONE, a) + (q.p + 2) * div(ONE, q.cov[zu] + q.cov[zv])) + zu * zv * (ONE / 2^20)
  }
  pure def envSlope(r: int, rmax: int, p: int): int =
    div(envelope(r + DR, rmax, p) - envelope(r - DR, rmax, p), 2 * DR)
}

module zbl {
  import fix.* from "./fix"
  import zblmath.*
  type Act = { op: str, k: int, obj: Par, zu: int, zv: int, r: int, rmax: int, p: int, out: int, mag: int }
  pure val NOBJ: Par = { expo: 0, pref: 0, c: [], cov: [], p: 0 }
  pure val DEFC = [18175 * (ONE / 100000), 50986 * (ONE / 100000), 28022 * (ONE / 100000), 2817 * (ONE / 100000)]

  pure def dyadic(x: int): int = x - x % (ONE / 2^40)
  pure def mkObj(seed: int, usual: bool, p: int, nz: int): Par = {
    expo: if (usual) dyadic(rat(3, 10)) else ONE / 8 + abs(rnd(seed, 1)) / 2,
    pref: if (usual) dyadic(rat(4543, 10000)) else ONE / 4 + abs(rnd(seed, 2)),
    c: if (usual) DEFC.foldl([], (a, q) => a.append(dyadic(q))) else range(0, 4).foldl([], (a, i) => a.append(rnd(seed, 3 + i))),
    cov: range(0, nz).foldl([], (a, i) => a.append(ONE / 4 + abs(rnd(seed, 10 + i)))),
    p: p
  }
  var objs: List[Par]
  var act: Act

  action build: bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet usual = Set(true, false).oneOf()
    nondet p = 1.to(8).oneOf()
    nondet nz = Set(2, 5, 20, 97).oneOf()
    nondet k = 0.to(1).oneOf()
    val o = mkObj(seed, usual, p, nz)
    val kk = if (k < objs.length()) k else objs.length()
    all {
      objs' = if (kk < objs.length()) objs.replaceAt(kk, o) else objs.append(o),
      act' = { op: "build", k: kk, obj: o, zu: act.zu, zv: act.zv, r: act.r, rmax: 0, p: 0, out: 0, mag: 0 },
    }
  }
  pure def radius(where: int, rmax: int, f: int): int = {
    val tiny = ONE / 2^40
    if (where == 0) rmax
    else if (where == 1) rmax - tiny
    else if (where == 2) rmax + tiny
    else if (where == 3) rmax - rmax / 64 - (rmax / 64) % tiny
    else if (where == 4) 2 * rmax
    else if (where == 5) 50 * rmax
    else if (where == 6) ONE / 32 + dyadic(mul(f, ONE / 8))
    else { val x = ONE / 32 + mul(rmax, f) x - x % tiny }
  }
  action pair: bool = {
    nondet k = objs.indices().oneOf()
    val o = objs[k]
    nondet zu0 = 1.to(o.cov.length() - 1).oneOf()
    nondet zv0 = 1.to(o.cov.length() - 1).oneOf()
    nondet again = 0.to(3).oneOf()
    nondet where = 0.to(14).oneOf()
    nondet f = 0.to(2^30).oneOf()
    nondet op = Set("energy", "slope").oneOf()
    // sometimes the same pair the other way round, at the same distance
    val known = act.zu > 0 and act.zu < o.cov.length() and act.zv < o.cov.length()
    val swap = again == 0 and known and act.k == k
    // sometimes the question just asked, put to any of the objects; sometimes another pair at the same distance
    val same = again == 1 and known
    val zu = if (swap) act.zv else if (same) act.zu else zu0
    val zv = if (swap) act.zu else if (same) act.zv else zv0
    val rmax = o.cov[zu] + o.cov[zv]
    val r = if (swap or same or (again == 2 and act.r > 0)) act.r else dyadic(radius(where, rmax, f * (ONE / 2^30)))
    all {
      objs' = objs,
      act' = { op: op, k: k, obj: NOBJ, zu: zu, zv: zv, r: r, rmax: rmax, p: o.p,
               out: if (op == "energy") energy(o, zu, zv, r) else slope(o, zu, zv, r),
               mag: if (op == "energy") emag(o, zu, zv, r) else smag(o, zu, zv, r) },
    }
  }
  action env: bool = {
    nondet k = objs.indices().oneOf()
    nondet p = 1.to(9).oneOf()
    nondet rm = 1.to(4096).oneOf()
    nondet where = 0.to(14).oneOf()
    nondet f = 0.to(2^30).oneOf()
    nondet op = Set("envelope", "envelope_slope").oneOf()
    val rmax = ONE / 4 + rm * (ONE / 1024)
    nondet again = 0.to(3).oneOf()
    val r = if (again == 0 and act.r > 0) act.r else dyadic(radius(where, rmax, f * (ONE / 2^30)))
    all {
      objs' = objs,
      act' = { op: op, k: k, obj: NOBJ, zu: 0, zv: 0, r: r, rmax: rmax, p: p,
               out: if (op == "envelope") envelope(r, rmax, p) else envSlope(r, rmax, p),
               mag: (p + 1) * (p + 2) * (if (op == "envelope") ONE else (p + 2) * div(ONE, rmax)) },
    }
  }
  action init = {
    nondet seed = 0.to(10^15).oneOf()
    val o = mkObj(seed, true, 6, 20)
    all { objs' = [o], act' = { op: "build", k: 0, obj: o, zu: 0, zv: 0, r: 0, rmax: 0, p: 0, out: 0, mag: 0 } }
  }
  action step = any { pair, pair, pair, pair, env, build }

  // ---- specification-level properties ----
  // the cut-off is smooth: at r_max value and slope vanish; beyond, everything is exactly zero
  val cutoff = (act.op == "energy" or act.op == "slope") implies
    ((act.r >= act.rmax and act.op == "energy") implies act.out == 0) and
    ((act.r >= act.rmax + DR and act.op == "slope") implies act.out == 0) and
    (act.r == act.rmax implies abs(act.out) <= act.mag / 2^28)
  val symmetric = (act.op == "energy" and act.r > 0) implies
    abs(energy(objs[act.k], act.zv, act.zu, act.r) - act.out) <= ONE / 2^60
  val ok = cutoff and symmetric
}

// Accumulation over a neighbour list on top of whatever the arrays hold.
module zblsum {
  import fix.* from "./fix"
  import zblmath.*
  import zbl as one
  type Edge = { i: int, t: int, v: List[int] }
  type Act = { op: str, obj: Par, numbers: List[int], types: List[int], edges: List[Edge], e0: List[int], f0: List[int],
               e: List[int], f: List[int], emag: List[int], fmag: List[int] }
  var par: Par
  var numbers: List[int]
  var act: Act

  pure def vecLen(v: List[int]): int = isqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
  // a vector about as long as the cut-off of the pair: inside, outside, on an axis, close to contact
  pure def mkVec(seed: int, q: int, rmax: int): List[int] = {
    val how = rndInt(seed, 9 * q, 6)
    val a = [rnd(seed, 9 * q + 1), rnd(seed, 9 * q + 2), rnd(seed, 9 * q + 3)]
    val u = if (how == 0) [0, 0, if (a[0] < 0) -ONE / 2 else ONE / 2]
            else if (how == 1) [if (a[0] < 0) -ONE else ONE, 0, a[2]] else a
    val f = if (how == 2) 4 * rmax else if (how == 3) rmax / 4 else rmax
    val v = [mul(f, u[0]), mul(f, u[1]), mul(f, u[2])]
    val w = [v[0] - v[0] % (ONE / 2^36), v[1] - v[1] % (ONE / 2^36), v[2] - v[2] % (ONE / 2^36)]
    if (vecLen(w) < rmax / 16) [ONE / 4, w[1], w[2]] else w
  }
  action build: bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet usual = Set(true, false).oneOf()
    nondet p = 3.to(7).oneOf()
    nondet ne = 1.to(4).oneOf()
    val o = one::mkObj(seed, usual, p, 30)
    all {
      par' = o, numbers' = range(0, ne).foldl([], (l, i) => l.append(1 + rndInt(seed, 90 + i, 29))),
      act' = { op: "build", obj: o, numbers: [], types: [], edges: [], e0: [], f0: [], e: [], f: [], emag: [], fmag: [] },
    }
  }
  action accumulate: bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = 0.to(4).oneOf()
    nondet d = 0.to(3).oneOf()
    nondet prior = Set(true, false).oneOf()
    val ne = numbers.length()
    val types = range(0, n).foldl([], (l, i) => l.append(rndInt(seed, i, ne)))
    val edges: List[Edge] = range(0, n).foldl([], (l, i) => range(0, rndInt(seed, 20 + i, d + 1)).foldl(l, (ll, q) => {
      val t = rndInt(seed, 100 + 10 * i + q, ne)
      ll.append({ i: i, t: t, v: mkVec(seed + i, q, par.cov[numbers[types[i]]] + par.cov[numbers[t]]) }) }))
    val e0 = range(0, n).foldl([], (l, i) => l.append(if (prior) rnd(seed, 300 + i) else 0))
    val f0 = range(0, 3 * edges.length()).foldl([], (l, i) => l.append(if (prior) rnd(seed, 400 + i) else 0))
    val rs = edges.foldl([], (l, x) => l.append(vecLen(x.v)))
    val zs = edges.foldl([], (l, x) => l.append((numbers[types[x.i]], numbers[x.t])))
    val en = range(0, edges.length()).foldl([], (l, q) => l.append(energy(par, zs[q]._1, zs[q]._2, rs[q])))
    val sl = range(0, edges.length()).foldl([], (l, q) => l.append(slope(par, zs[q]._1, zs[q]._2, rs[q])))
    all {
      par' = par, numbers' = numbers,
      act' = { op: "accumulate", obj: par, numbers: numbers, types: types, edges: edges, e0: e0, f0: f0,
               e: range(0, n).foldl([], (l, i) => l.append(e0[i] + range(0, edges.length()).foldl(0, (s, q) => if (edges[q].i == i) s + en[q] else s))),
               f: range(0, 3 * edges.length()).foldl([], (l, z) => l.append(f0[z] - mul(div(edges[z / 3].v[z % 3], rs[z / 3]), sl[z / 3]))),
               emag: range(0, n).foldl([], (l, i) => l.append(ONE + range(0, edges.length()).foldl(0, (s, q) =>
                       if (edges[q].i == i) s + emag(par, zs[q]._1, zs[q]._2, rs[q]) else s))),
               fmag: range(0, 3 * edges.length()).foldl([], (l, z) => l.append(ONE + smag(par, zs[z / 3]._1, zs[z / 3]._2, rs[z / 3]))) },
    }
  }
  action init = build
  action step = any { accumulate, accumulate, accumulate, build }
  // energies only grow by the sum of the pair terms; an atom without edges keeps its energy
  val ok = act.op == "accumulate" implies act.types.indices().forall(i =>
    act.edges.select(x => x.i == i).length() == 0 implies act.e[i] == act.e0[i])
}
