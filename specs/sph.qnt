// Spherical harmonics.  Meaning: with the direction n = (x,y,z)/r,
//   C_m + i S_m = (x + i y)^m,   Q_lm(z) = P_l^m(z) / (1-z^2)^{m/2}   (no Condon-Shortley phase)
//   real:     Y_{l,0} = N_l0 Q_l0,  Y_{l,m>0} = sqrt2 N_lm Q_lm C_m,  Y_{l,-m} = sqrt2 N_lm Q_lm S_m
//   complex:  Y_{l,m>=0} = (-1)^m N_lm Q_lm (C_m + i S_m),  Y_{l,-m} = (-1)^m conj(Y_{l,m})
//   N_lm = sqrt((2l+1)/(4 pi) (l-m)!/(l+m)!)
module sphmath {
  import fix.* from "./fix"
  // (x + i y)^m
  pure def cpow(x: int, y: int, m: int): (int, int) =
    range(0, m).foldl((ONE, 0), (c, _) => (mul(c._1, x) - mul(c._2, y), mul(c._1, y) + mul(c._2, x)))
  // N_lm Q_lm by upward recursion in l of q_l = sqrt((l-m)!/(l+m)!) Q_lm, starting from
  // q_m = (2m-1)!!/sqrt((2m)!) = prod_i sqrt((2i-1)/(2i))
  pure def normQ(l: int, m: int, z: int): int = {
    val qmm = range(1, m + 1).foldl(ONE, (p, i) => mul(p, sqrt(rat(2 * i - 1, 2 * i))))
    val q = range(m, l).foldl((0, qmm), (st, i) =>   // (q_{i-1}, q_i) -> (q_i, q_{i+1})
      (st._2, div((2 * i + 1) * mul(z, st._2) - mul(sqrt((i + m) * (i - m) * ONE), st._1), sqrt((i + 1 - m) * (i + 1 + m) * ONE))))._2
    mul(sqrt((2 * l + 1) * div(ONE * ONE / (4 * PI), ONE)), q)
  }
  pure def real(l: int, m: int, x: int, y: int, z: int): int = {
    val am = abs(m)
    val c = cpow(x, y, am)
    val q = normQ(l, am, z)
    if (m == 0) q else mul(mul(sqrt(2 * ONE), q), if (m > 0) c._1 else c._2)
  }
  pure def complexY(l: int, m: int, x: int, y: int, z: int): (int, int) = {
    val am = abs(m)
    val c = cpow(x, y, am)
    val q = normQ(l, am, z)
    val sgn = if (am % 2 == 1) -1 else 1
    if (m >= 0) (sgn * mul(q, c._1), sgn * mul(q, c._2))
    else (mul(q, c._1), -mul(q, c._2))
  }
  // direction of a vector
  pure def unit(x: int, y: int, z: int): (int, int, int) = {
    val r = sqrt(mul(x, x) + mul(y, y) + mul(z, z))
    (div(x, r), div(y, r), div(z, r))
  }
}
module sph {
  import fix.* from "./fix"
  import sphmath.*
  type Act = { op: str, l: int, m: int, args: List[int], re: List[int], im: List[int] }
  var act: Act

  pure def coord(seed: int, i: int, style: int): int =
    if (style == 0) (rndInt(seed, i, 3) - 1) * ONE                       // axes, planes, diagonals
    else if (style == 1) (if (rndInt(seed, i, 2) == 0) 0 else rnd(seed, i))
    else if (style == 2) rnd(seed, i) / 2^10 - (rnd(seed, i) / 2^10) % (ONE / 2^40)
    else if (style == 3) 1000 * rnd(seed, i)
    else rnd(seed, i)
  pure def vec(seed: int, j: int, style: int): List[int] = {
    val v = [coord(seed, 3 * j, style), coord(seed, 3 * j + 1, style), coord(seed, 3 * j + 2, style)]
    if (v == [0, 0, 0]) [-ONE, 0, 0] else v
  }
  // angles: multiples of pi/2 (as close as a double gets is fine) or generic dyadics
  action angular: bool = {
    nondet l = Set(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18, 21, 24).oneOf()
    nondet m = (-l).to(l).oneOf()
    nondet th = 1.to(3214).oneOf()
    nondet ph = (-3216).to(6433).oneOf()
    nondet op = Set("sph_harm", "real_sph_harm").oneOf()
    val polar = th * (ONE / 1024)
    val az = ph * (ONE / 1024)
    val x = mul(sin(polar), cos(az))
    val y = mul(sin(polar), sin(az))
    val z = cos(polar)
    act' = { op: op, l: l, m: m, args: [polar, az],
             re: [if (op == "sph_harm") complexY(l, m, x, y, z)._1 else real(l, m, x, y, z)],
             im: if (op == "sph_harm") [complexY(l, m, x, y, z)._2] else [] }
  }
  action cartesian: bool = {
    nondet l = Set(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18, 21, 24).oneOf()
    nondet m = (-l).to(l).oneOf()
    nondet seed = 0.to(10^15).oneOf()
    nondet style = 0.to(5).oneOf()
    nondet op = Set("sph_harm_xyz", "real_sph_harm_xyz", "sphericart_sph_harm", "sphericart_real_sph_harm").oneOf()
    val v = vec(seed, 0, style)
    val u = unit(v[0], v[1], v[2])
    val cplx = op == "sph_harm_xyz" or op == "sphericart_sph_harm"
    act' = { op: op, l: l, m: m, args: v,
             re: [if (cplx) complexY(l, m, u._1, u._2, u._3)._1 else real(l, m, u._1, u._2, u._3)],
             im: if (cplx) [complexY(l, m, u._1, u._2, u._3)._2] else [] }
  }
  // all (l,m) of several points at once
  action table: bool = {
    nondet lmax = 0.to(8).oneOf()
    nondet n = 1.to(5).oneOf()
    nondet seed = 0.to(10^15).oneOf()
    nondet style = 0.to(5).oneOf()
    nondet op = Set("sphericart_complex", "sphericart_real").oneOf()
    val n1 = if (op == "sphericart_real") 1 else n
    val vs = range(0, n1).foldl([], (l, j) => l.append(vec(seed, j, style)))
    val us = vs.foldl([], (l, v) => l.append(unit(v[0], v[1], v[2])))
    val lms = range(0, lmax + 1).foldl([], (a, l) => range(-l, l + 1).foldl(a, (b, m) => b.append((l, m))))
    act' = { op: op, l: lmax, m: 0, args: vs.foldl([], (a, v) => a.concat(v)),
             re: us.foldl([], (a, u) => lms.foldl(a, (b, q) => b.append(
                if (op == "sphericart_real") real(q._1, q._2, u._1, u._2, u._3) else complexY(q._1, q._2, u._1, u._2, u._3)._1))),
             im: if (op == "sphericart_real") [] else
                 us.foldl([], (a, u) => lms.foldl(a, (b, q) => b.append(complexY(q._1, q._2, u._1, u._2, u._3)._2))) }
  }
  action init = act' = { op: "start", l: 0, m: 0, args: [], re: [], im: [] }
  action step = any { angular, cartesian, cartesian, table }

  // ---- specification-level properties ----
  // addition theorem: sum_m Y_lm^2 = (2l+1)/(4 pi) in every direction
  val addition = act.op == "sphericart_real" implies
    range(0, act.l + 1).indices().forall(l =>
      abs(range(l * l, (l + 1) * (l + 1)).foldl(0, (s, q) => s + mul(act.re[q], act.re[q]))
          - (2 * l + 1) * div(ONE * ONE / (4 * PI), ONE)) <= ONE / 2^60)
  // parity: Y_lm(-n) = (-1)^l Y_lm(n)
  val parity = act.op == "real_sph_harm_xyz" implies {
    val u = unit(-act.args[0], -act.args[1], -act.args[2])
    abs(real(act.l, act.m, u._1, u._2, u._3) - (if (act.l % 2 == 1) -1 else 1) * act.re[0]) <= ONE / 2^60 }
  val ok = addition and parity
}
