// Multivariate polynomials given as a list of (coefficient, monomial); a monomial is a non-empty
// list of variable indices, repetitions meaning powers.  The meaning is the plain sum of products,
// whatever evaluation scheme (shared sub-products, batches) the implementation uses.
module poly {
  import fix.* from "./fix"
  type Obj = { nv: int, cs: List[int], ms: List[List[int]] }
  type Act = { op: str, k: int, n: int, obj: Obj, x: List[int], f: List[int], g: List[int], fmag: List[int], gmag: List[int] }
  pure val NOBJ: Obj = { nv: 0, cs: [], ms: [] }

  pure def prodAll(m: List[int], x: List[int]): int = m.foldl(ONE, (p, v) => p * x[v] / ONE)
  pure def prodBut(m: List[int], x: List[int], skip: int): int =
    range(0, m.length()).foldl(ONE, (p, q) => if (q == skip) p else p * x[m[q]] / ONE)
  pure def value(o: Obj, x: List[int]): int =
    range(0, o.ms.length()).foldl(0, (s, i) => s + mul(o.cs[i], prodAll(o.ms[i], x)))
  pure def grad(o: Obj, x: List[int]): List[int] =
    range(0, o.ms.length()).foldl(range(0, o.nv).foldl([], (z, _) => z.append(0)), (g, i) =>
      range(0, o.ms[i].length()).foldl(g, (gg, q) => {
        val v = o.ms[i][q]
        gg.replaceAt(v, gg[v] + mul(o.cs[i], prodBut(o.ms[i], x, q)))
      }))
  pure def absl(x: List[int]): List[int] = x.foldl([], (a, q) => a.append(abs(q)))
  pure def absObj(o: Obj): Obj = { nv: o.nv, cs: absl(o.cs), ms: o.ms }

  // monomials: pairwise different index lists, drawn with a style
  //  0 sorted   1 any order   2 prefix chains (m, m+[v], m+[v,w], ...)   3 powers of few variables
  pure def rawMono(seed: int, i: int, nv: int, maxdeg: int, style: int): List[int] = {
    val d = 1 + rndInt(seed, 50 * i, maxdeg)
    val base = range(0, d).foldl([], (m, q) => m.append(
      if (style == 3) rndInt(seed, 50 * i + 1 + q, imin(nv, 2))
      else if (style == 2) rndInt(seed, 7 + q, nv)
      else rndInt(seed, 50 * i + 1 + q, nv)))
    if (style == 1) base
    else // insertion sort
      base.foldl([], (acc, v) => {
        val pos = acc.foldl(0, (c, w) => if (w <= v) c + 1 else c)
        acc.slice(0, pos).append(v).concat(acc.slice(pos, acc.length()))
      })
  }
  pure def mkMonos(seed: int, cnt: int, nv: int, maxdeg: int, style: int): List[List[int]] =
    range(0, cnt).foldl([], (ms, i) => {
      val m = rawMono(seed, i, nv, maxdeg, style)
      if (ms.foldl(false, (b, w) => b or w == m)) ms else ms.append(m)
    })
  pure def mkObj(seed: int, nv: int, cnt: int, maxdeg: int, style: int, zero: bool): Obj = {
    val ms = mkMonos(seed, cnt, nv, maxdeg, style)
    { nv: nv, ms: ms, cs: range(0, ms.length()).foldl([], (c, i) => c.append(
        if (zero and i % 3 == 1) 0 else 2 * rnd(seed, 100000 + i))) }
  }

  var objs: List[Obj]
  var act: Act
  pure def built(o: Obj, k: int): Act =
    { op: "build", k: k, n: 0, obj: o, x: [], f: [], g: [], fmag: [], gmag: [] }

  action build(nvs: Set[int], cnts: Set[int], maxdegs: Set[int]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet nv = nvs.oneOf()
    nondet cnt = cnts.oneOf()
    nondet maxdeg = maxdegs.oneOf()
    nondet style = 0.to(3).oneOf()
    nondet zero = Set(true, false).oneOf()
    nondet k = 0.to(1).oneOf()
    val o = mkObj(seed, nv, cnt, maxdeg, style, zero)
    val kk = if (k < objs.length()) k else objs.length()
    all {
      objs' = if (kk < objs.length()) objs.replaceAt(kk, o) else objs.append(o),
      act' = { ...built(o, kk), x: act.x },
    }
  }
  pure def inputs(seed: int, len: int, prev: List[int], how: int, sc: int): List[int] =
    if (how == 0 and prev.length() == len and len > 0)
      range(0, len).foldl([], (a, i) => a.append(if (i == len - 1) prev[i] + ONE / 8 else prev[i]))
    else if (how == 1 and prev.length() == len)
      range(0, len).foldl([], (a, i) => a.append(if (i == rndInt(seed, 0, len)) -prev[i] - ONE / 16 else prev[i]))
    else if (how >= 6 and prev.length() >= len) prev.slice(0, len)
    else if (how == 2)
      range(0, len).foldl([], (a, i) => a.append(if (rndInt(seed, i, 2) == 0) 0 else mul(sc, rnd(seed, i))))
    else range(0, len).foldl([], (a, i) => a.append(mul(sc, rnd(seed, i))))

  action call(batches: Set[int]): bool = {
    nondet k = objs.indices().oneOf()
    val o = objs[k]
    nondet op = Set("evaluate", "gradient", "batch", "batch", "simple", "gradient_simple", "gradient2", "batch2").oneOf()
    nondet b = batches.oneOf()
    nondet seed = 0.to(10^15).oneOf()
    nondet how = 0.to(7).oneOf()
    nondet sc = Set(ONE, 2 * ONE, ONE / 4).oneOf()
    val op1 = if (op == "gradient2") "gradient" else if (op == "batch2") "batch" else op
    val n = if (op1 == "batch") b else 1
    val x = inputs(seed, n * o.nv, act.x, how, sc)
    val oa = absObj(o)
    val rows = range(0, n).foldl([], (l, i) => l.append(x.slice(i * o.nv, (i + 1) * o.nv)))
    val wantG = op1 != "evaluate" and op1 != "simple"
    all {
      objs' = objs,
      act' = {
        op: op1, k: k, n: n, obj: NOBJ, x: x,
        f: rows.foldl([], (a, r) => a.append(value(o, r))),
        g: if (wantG) rows.foldl([], (a, r) => a.concat(grad(o, r))) else [],
        fmag: rows.foldl([], (a, r) => a.append(value(oa, absl(r)))),
        gmag: if (wantG) rows.foldl([], (a, r) => a.concat(grad(oa, absl(r)))) else [],
      },
    }
  }
  action initWith(nvs: Set[int], cnts: Set[int], maxdegs: Set[int]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet nv = nvs.oneOf()
    nondet cnt = cnts.oneOf()
    nondet maxdeg = maxdegs.oneOf()
    nondet style = 0.to(3).oneOf()
    val o = mkObj(seed, nv, cnt, maxdeg, style, false)
    all { objs' = [o], act' = built(o, 0) }
  }
  pure val NV = Set(1, 2, 3, 4, 5)
  pure val CNT = Set(0, 1, 2, 3, 5, 8, 12)
  pure val DEG = Set(1, 2, 3, 4, 5)
  action init = initWith(NV, CNT, DEG)
  action step = any { call(Set(1, 2, 3, 4, 7, 12)), call(Set(1, 2, 3, 5)), call(Set(1, 2, 9)), build(NV, CNT, DEG) }
  // MACE-sized: 9 or 16 variables, tens to hundreds of monomials; and large batches of small ones
  action initLarge = initWith(Set(9, 16, 25), Set(30, 80, 200), Set(2, 3))
  action stepLarge = any { call(Set(1, 2, 5)), call(Set(1, 3)), build(Set(9, 16, 25), Set(30, 80, 200), Set(2, 3, 4)) }
  action initBig = initWith(Set(1, 2, 3), Set(2, 4, 6), Set(2, 3))
  action stepBig = any { call(Set(31, 33, 64, 65, 100, 129, 260)), call(Set(1, 2, 150)), build(Set(1, 2, 3), Set(2, 4, 6), Set(2, 3)) }

  // ---- specification-level properties ----
  // Euler: for each monomial sum_i x_i d/dx_i = degree; checked on the whole polynomial with degree weights
  val euler = act.op == "gradient" implies {
    val o = objs[act.k]
    val lhs = range(0, o.nv).foldl(0, (s, i) => s + mul(act.x[i], act.g[i]))
    val rhs = range(0, o.ms.length()).foldl(0, (s, i) => s + o.ms[i].length() * mul(o.cs[i], prodAll(o.ms[i], act.x)))
    abs(lhs - rhs) <= ONE / 2^80
  }
}
