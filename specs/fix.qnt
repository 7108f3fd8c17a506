// Fixed-point real arithmetic on unbounded integers.  A real x is the integer round(x * 2^100).
// Every numerical specification of this directory is written over these numbers: the rounding
// error of one operation is 2^-100, so the specification's values are exact for all practical
// purposes next to the implementation's doubles (2^-53).
module fix {
  pure val ONE = 1267650600228229401496703205376        // 2^100
  pure val HALF = ONE / 2
  // PI * 2^100
  pure val PI = 3982441812995697363688351113952
  pure val LN2 = 878668439483319573618263538048

  pure def abs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def fx(n: int): int = n * ONE                     // from an integer
  pure def rat(p: int, q: int): int = p * ONE / q         // from a rational
  pure def dy(n: int, k: int): int = n * ONE / 2^k        // from a dyadic rational, k <= 100
  pure def mul(a: int, b: int): int = a * b / ONE
  pure def div(a: int, b: int): int = a * ONE / b
  pure def sum(l: List[int]): int = l.foldl(0, (s, x) => s + x)
  pure def dot(a: List[int], b: List[int]): int =
    range(0, a.length()).foldl(0, (s, i) => s + a[i] * b[i]) / ONE

  // integer power of a fixed-point number, n >= 0
  pure def fpowi(a: int, n: int): int = range(0, n).foldl(ONE, (p, _) => mul(p, a))

  // integer square root by Newton's method, started above the root
  pure def bits(n: int): int =
    range(0, 11).foldl((n, 0), (st, i) => {
      val k = 2^(10 - i)
      if (st._1 >= 2^k) (st._1 / 2^k, st._2 + k) else st })._2
  pure def isqrt(n: int): int = if (n <= 0) 0 else {
    val x0 = 2^(bits(n) / 2 + 1)
    range(0, 14).foldl(x0, (x, _) => { val y = (x + n / x) / 2 if (y < x) y else x })
  }
  pure def sqrt(a: int): int = isqrt(a * ONE)

  // exp: argument divided by 2^12, Taylor, then 12 squarings
  pure def exp(x: int): int = if (x < -fx(60)) 0 else {
    val y = x / 4096
    val t = range(1, 15).foldl((ONE, ONE), (st, i) => {
      val term = st._1 * y / ONE / i
      (term, st._2 + term) })._2
    range(0, 12).foldl(t, (p, _) => mul(p, p))
  }
  // ln for x > 0: x = m * 2^k with m in [1/2, 1), atanh series
  pure def ln(x: int): int = {
    val k = bits(x) - 100 + 1
    val m = if (k >= 0) x / 2^k else x * 2^(-k)
    val z = div(m - ONE, m + ONE)
    val z2 = mul(z, z)
    val s = range(0, 36).foldl((z, 0), (st, i) => (mul(st._1, z2), st._2 + st._1 / (2 * i + 1)))._2
    2 * s + k * LN2
  }
  pure def fpow(x: int, p: int): int = exp(mul(p, ln(x)))
  // sine and cosine, |x| <= 8
  pure def sin(x: int): int =
    range(0, 34).foldl((x, 0), (st, i) =>
      (-(mul(mul(st._1, x), x) / ((2 * i + 2) * (2 * i + 3))), st._2 + st._1))._2
  pure def cos(x: int): int =
    range(0, 34).foldl((ONE, 0), (st, i) =>
      (-(mul(mul(st._1, x), x) / ((2 * i + 1) * (2 * i + 2))), st._2 + st._1))._2

  // Pseudo-random numbers for bulk data (weights, tables): a 64-bit LCG whose seed is picked
  // non-deterministically by the state machines.  rnd(seed, i) is a dyadic number in [-1, 1)
  // with 24 fractional bits (exactly representable as a double).
  pure def mix(a: int): int = {
    val x = (a * 6364136223846793005 + 1442695040888963407) % 18446744073709551616
    ((x / 65536) * 2862933555777941757 + x + 3037000493) % 18446744073709551616
  }
  pure def rndInt(seed: int, i: int, n: int): int = (mix(mix(seed + 7919 * i)) / 1048576) % n
  pure def rnd(seed: int, i: int): int = (rndInt(seed, i, 33554432) - 16777216) * (ONE / 16777216)
  pure def rnds(seed: int, off: int, n: int): List[int] = range(0, n).foldl([], (tab_, i) => tab_.append(rnd(seed, off + i)))
}
