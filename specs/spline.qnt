// Tabulated radial functions: a cubic Hermite spline on a uniform grid and sets of such splines.
// The meaning of a table (step h, nodal values ys, nodal slopes ds) is the piecewise cubic that
// interpolates values and slopes at the knots, written here in the Hermite basis.
module hermite {
  import fix.* from "./fix"
  type Table = { h: int, ys: List[int], ds: List[int] }

  pure def inDomain(t: Table, r: int): bool = r >= 0 and r < (t.ys.length() - 1) * t.h

  pure def value(t: Table, r: int): int = {
    val i = r / t.h
    val s = div(r - i * t.h, t.h)
    val s2 = mul(s, s)
    val s3 = mul(s2, s)
    mul(2 * s3 - 3 * s2 + ONE, t.ys[i]) + mul(3 * s2 - 2 * s3, t.ys[i + 1])
      + mul(t.h, mul(s3 - 2 * s2 + s, t.ds[i]) + mul(s3 - s2, t.ds[i + 1]))
  }
  pure def slope(t: Table, r: int): int = {
    val i = r / t.h
    val s = div(r - i * t.h, t.h)
    val s2 = mul(s, s)
    div(mul(6 * s2 - 6 * s, t.ys[i] - t.ys[i + 1]), t.h)
      + mul(3 * s2 - 4 * s + ONE, t.ds[i]) + mul(3 * s2 - 2 * s, t.ds[i + 1])
  }
  // magnitude of the terms around r: what rounding errors are measured against
  pure def vmag(t: Table, r: int): int = {
    val i = r / t.h
    abs(t.ys[i]) + abs(t.ys[i + 1]) + mul(t.h, abs(t.ds[i]) + abs(t.ds[i + 1]))
  }
  pure def smag(t: Table, r: int): int = div(vmag(t, r), t.h)
}

module spline {
  import fix.* from "./fix"
  import hermite.*

  // Each object the user holds is one table (a set is several tables with one step).
  type Obj = { h: int, ys: List[List[int]], ds: List[List[int]] }
  pure def table(o: Obj, j: int): Table = { h: o.h, ys: o.ys[j], ds: o.ds[j] }

  // what the driver has to do and what it has to observe
  type Act = { op: str, k: int, r: int, ok: bool, obj: Obj, out: List[List[int]], mag: List[List[int]] }
  pure val NOBJ: Obj = { h: 0, ys: [], ds: [] }

  var objs: List[Obj]
  var act: Act

  pure def mkRow(seed: int, off: int, n: int, kind: int, sc: int): List[int] =
    if (kind == 0) range(0, n).foldl([], (tab_, i) => tab_.append(mul(sc, rnd(seed, off + i))))
    else if (kind == 1) range(0, n).foldl([], (tab_, _) => tab_.append(mul(sc, rnd(seed, off))))
    else if (kind == 2) range(0, n).foldl([], (tab_, i) => tab_.append(if (rndInt(seed, off + i, 3) == 0) 0 else mul(sc, rnd(seed, off + i))))
    else range(0, n).foldl([], (tab_, i) => tab_.append(if (i == rndInt(seed, off, n)) sc else 0))

  pure def mkObj(seed: int, nspl: int, n: int, h: int, kind: int, sc: int): Obj = {
    h: h,
    ys: range(0, nspl).foldl([], (l, j) => l.append(mkRow(seed, 2000 * j, n, kind, sc))),
    ds: range(0, nspl).foldl([], (l, j) => l.append(mkRow(seed, 2000 * j + 1000, n, if (kind == 1) 0 else kind, sc)))
  }

  // grid step: a power of two, or a 20-bit dyadic number in (1/64, 2)
  pure def mkStep(hk: int, hseed: int): int =
    if (hk < 5) ONE / 2^(4 - hk) else ONE / 64 + rndInt(hseed, 0, 2000000) * (ONE / 1048576)

  action build(sets: bool): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = Set(2, 3, 4, 5, 6, 9, 17, 40).oneOf()
    nondet nspl = (if (sets) Set(1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 33) else Set(1)).oneOf()
    nondet hk = 0.to(9).oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet sc = Set(ONE, 1024 * ONE, ONE / 1024, 3 * ONE).oneOf()
    nondet k = 0.to(2).oneOf()
    val o = mkObj(seed, nspl, n, mkStep(hk, seed), kind, sc)
    val kk = if (k < objs.length()) k else objs.length()
    all {
      objs' = if (kk < objs.length()) objs.replaceAt(kk, o) else objs.append(o),
      act' = { op: "build", k: kk, r: 0, ok: true, obj: o, out: [], mag: [] },
    }
  }

  // a point of the domain: on a knot, just beside one, or anywhere
  pure def point(o: Obj, i: int, where: int, frac: int): int = {
    val tiny = ONE / 2^40
    if (where == 0) i * o.h
    else if (where == 1) i * o.h + tiny
    else if (where == 2) (i + 1) * o.h - tiny
    else if (where == 3) i * o.h + mul(o.h, ONE / 2)
    else { val x = i * o.h + mul(o.h, frac) x - x % tiny }
  }

  action evalIn: bool = {
    nondet k = objs.indices().oneOf()
    val o = objs[k]
    nondet i = 0.to(o.ys[0].length() - 2).oneOf()
    nondet where = 0.to(8).oneOf()
    nondet f = 0.to(2^30).oneOf()
    nondet op = Set("value", "deriv", "divided").oneOf()
    val r0 = point(o, i, where, f * (ONE / 2^31))
    val r = if (op == "divided" and r0 == 0) o.h / 2 else r0
    val js = range(0, o.ys.length())
    all {
      objs' = objs,
      act' = {
        op: op, k: k, r: r, ok: true, obj: NOBJ,
        out: js.foldl([], (l, j) => l.append([value(table(o, j), r), slope(table(o, j), r),
                if (r == 0) 0 else div(slope(table(o, j), r), r)])),
        mag: js.foldl([], (l, j) => l.append([vmag(table(o, j), r), smag(table(o, j), r),
                if (r == 0) 0 else div(smag(table(o, j), r), r)])),
      },
    }
  }

  // a point outside the domain: the object must refuse
  action evalOut: bool = {
    nondet k = objs.indices().oneOf()
    val o = objs[k]
    nondet where = 0.to(7).oneOf()
    nondet op = Set("value", "deriv", "divided").oneOf()
    val L = (o.ys[0].length() - 1) * o.h
    val isPow = range(0, 8).foldl(false, (b, e) => b or o.h == ONE / 2^e)
    val r = if (where == 0) (if (isPow) L else L + o.h / 1024)
            else if (where == 1) L + o.h / 1024
            else if (where == 2) L + 3 * o.h + ONE / 128
            else if (where == 3) 1000 * L
            else if (where == 4) -(o.h / 2)
            else if (where == 5) -(ONE / 2^40)
            else if (where == 6) -(2 * o.h)
            else -(1000 * o.h)
    all {
      objs' = objs,
      act' = { op: op, k: k, r: r, ok: inDomain(table(o, 0), r), obj: NOBJ, out: [], mag: [] },
    }
  }

  // the argument of the last question once more, put to any of the objects in any way: each answers for its own table
  action evalAgain: bool = {
    nondet k = objs.indices().oneOf()
    nondet op = Set("value", "deriv", "divided").oneOf()
    val o = objs[k]
    val L = (o.ys[0].length() - 1) * o.h
    val r = if (abs(act.r - L) < o.h / 1024 or act.r == 0) o.h / 4 else act.r
    val ok = inDomain(table(o, 0), r)
    val js = if (ok) range(0, o.ys.length()) else []
    all {
      objs' = objs,
      act' = {
        op: op, k: k, r: r, ok: ok, obj: NOBJ,
        out: js.foldl([], (l, j) => l.append([value(table(o, j), r), slope(table(o, j), r), div(slope(table(o, j), r), r)])),
        mag: js.foldl([], (l, j) => l.append([vmag(table(o, j), r), smag(table(o, j), r), div(smag(table(o, j), r), r)])),
      },
    }
  }

  action initWith(sets: bool): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet n = Set(2, 3, 5, 9).oneOf()
    nondet nspl = (if (sets) Set(1, 2, 5, 8) else Set(1)).oneOf()
    nondet hk = 0.to(9).oneOf()
    val o = mkObj(seed, nspl, n, mkStep(hk, seed), 0, ONE)
    all { objs' = [o], act' = { op: "build", k: 0, r: 0, ok: true, obj: o, out: [], mag: [] } }
  }
  action stepWith(sets: bool): bool = any { evalIn, evalIn, evalIn, evalAgain, evalAgain, evalOut, build(sets) }

  action init = initWith(false)
  action step = stepWith(false)
  action initSet = initWith(true)
  action stepSet = stepWith(true)

  // ---- properties of the specification itself ----
  val near = ONE / 2^60
  // interpolation: at every knot the meaning has the tabulated value and slope, from both sides
  val interpolates = objs.indices().forall(k => { val t = table(objs[k], 0)
    range(0, t.ys.length() - 1).indices().forall(i =>
      abs(value(t, i * t.h) - t.ys[i]) <= near and abs(slope(t, i * t.h) - t.ds[i]) <= near
      and abs(value(t, (i + 1) * t.h - 1) - t.ys[i + 1]) <= near
      and abs(slope(t, (i + 1) * t.h - 1) - t.ds[i + 1]) <= near) })
  // the slope is the derivative of the value
  val slopeIsDerivative = (act.op != "build" and act.ok and act.r >= ONE / 2^40 ) implies {
    val t = table(objs[act.k], 0)
    val d = ONE / 2^40
    // one-sided within the interval, second order
    val i = act.r / t.h
    val a = if (act.r + d < (i + 1) * t.h) d else -d
    val fd = div(-value(t, act.r + 2 * a) + 4 * value(t, act.r + a) - 3 * value(t, act.r), 2 * a)
    (act.r + 2 * a >= i * t.h and act.r + 2 * a < (i + 1) * t.h) implies
      abs(fd - act.out[0][1]) <= mul(div(act.mag[0][1], t.h), ONE / 2^30) + ONE / 2^40
  }
  val ok = interpolates and slopeIsDerivative
}
