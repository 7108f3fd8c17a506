// Combinatorial helpers, specified by enumeration and explored exhaustively within bounds: the state
// machine walks through *every* case of the bounded domains, one call per state.
module tools {
  type Act = { op: str, a: int, b: int, v: List[int], ok: bool, num: int,
               rows: List[List[int]], parts: List[List[List[int]]] }

  pure def factorial(n: int): int = 2.to(n).fold(1, (p, i) => p * i)
  pure def binomial(n: int, k: int): int =
    if (k < 0 or k > n) 0 else factorial(n) / (factorial(k) * factorial(n - k))

  // all set partitions of the positions of v, blocks in order of first element; built from
  // restricted growth strings: position i goes into block g[i], g[0] = 0, g[i] <= 1 + max(g[0..i-1])
  pure def growth(n: int): List[List[int]] = if (n == 0) [] else
    range(1, n).foldl([[0]], (gs, _) => gs.foldl([], (acc, g) => {
      val m = g.foldl(0, (a, x) => if (x > a) x else a)
      range(0, m + 2).foldl(acc, (ac, b) => ac.append(g.append(b))) }))
  pure def blocks(v: List[int], g: List[int]): List[List[int]] = {
    val m = g.foldl(0, (a, x) => if (x > a) x else a)
    range(0, m + 1).foldl([], (bs, b) => bs.append(
      range(0, v.length()).foldl([], (l, i) => if (g[i] == b) l.append(v[i]) else l))) }
  pure def partitions(v: List[int]): List[List[List[int]]] =
    growth(v.length()).foldl([], (ps, g) => ps.append(blocks(v, g)))
  // two blocks: position 0 in the first, every other position in either, not all in the first
  pure def twoParts(v: List[int]): List[List[List[int]]] = if (v.length() == 0) [] else
    range(1, v.length()).foldl([[0]], (gs, _) => gs.foldl([], (acc, g) => acc.append(g.append(0)).append(g.append(1))))
      .select(g => g.foldl(0, (a, x) => a + x) > 0)
      .foldl([], (ps, g) => ps.append(blocks(v, g)))

  // lexicographic permutations of 0..n-1, by inserting choices position by position
  pure def permutations(n: int): List[List[int]] =
    range(0, n).foldl([[]], (ps, _) => ps.foldl([], (acc, p) =>
      range(0, n).foldl(acc, (ac, x) =>
        if (p.foldl(false, (b, y) => b or x == y)) ac else ac.append(p.append(x)))))
  pure def pairs(v: List[int]): List[List[int]] =
    range(0, v.length()).foldl([], (acc, i) =>
      range(i + 1, v.length()).foldl(acc, (ac, j) => ac.append([v[i], v[j]])))
  // every tuple, last position fastest
  pure def product(v: List[int], n: int): List[List[int]] =
    range(0, n).foldl([[]], (ts, _) => ts.foldl([], (acc, t) => v.foldl(acc, (ac, x) => ac.append(t.append(x)))))

  pure def blank(op: str, a: int, b: int, v: List[int]): Act =
    { op: op, a: a, b: b, v: v, ok: true, num: 0, rows: [], parts: [] }
  pure def upto(n: int): List[int] = range(0, n)

  // the bounded domain, case by case
  pure val LISTS: List[List[int]] = [[], [4], [7, 7], [0, 1], [2, -1, 5], [3, 3, 3], [0, 1, 2, 3], [5, 5, 2, 2],
    [9, 1, 9, 1, 0], [0, 1, 2, 3, 4], [1, 1, 1, 1, 1], [0, 1, 2, 3, 4, 5], [3, 0, 3, 1, 2, 1], [-3, 100000, 2147483, 1, 0, 0, 12],
    [0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [0, 0, 1, 1, 2, 2, 3]]
  pure val CASES: List[Act] = {
    val bin = range(0, 19).foldl([], (acc, n) => range(-2, n + 3).foldl(acc, (ac, k) =>
      ac.append(blank("binomial", n, k, []).with("num", binomial(n, k)))))
    val big = range(19, 31).foldl([], (acc, n) => [0, 1, 3, n / 2, n - 2, n, n + 1].foldl(acc, (ac, k) =>
      ac.append(blank("binomial", n, k, []).with("num", binomial(n, k)))))
    val neg = [blank("binomial", -1, 0, []).with("num", 0), blank("binomial", -3, -4, []).with("num", 0)]
    val sums = LISTS.foldl([], (ac, v) => ac.append(blank("sum", 0, 0, v).with("num", v.foldl(0, (s, x) => s + x))))
    val par = LISTS.foldl([], (ac, v) => ac.append(blank("partitions", 0, 0, v).with("parts", partitions(v))))
    val two = LISTS.foldl([], (ac, v) => ac.append(blank("two_parts", 0, 0, v).with("parts", twoParts(v))))
    val par2 = [upto(8), [3, 1, 4, 1, 5, 9, 2, 6], upto(9)].foldl([], (ac, v) => ac.append(blank("partitions", 0, 0, v).with("parts", partitions(v))))
    val two2 = range(8, 13).foldl([], (ac, n) => ac.append(blank("two_parts", 0, 0, upto(n)).with("parts", twoParts(upto(n)))))
    val comb2 = [range(-7, 13), range(0, 33).foldl([], (l, q) => l.append(q / 2))].foldl([], (ac, v) =>
      ac.append(blank("combinations", 2, 0, v).with("rows", pairs(v))))
    val prod2 = [([1, 2], 9), ([0, 0], 5), ([5, 3, 1], 6), ([4], 12), (upto(12), 2), (upto(9), 3)].foldl([], (ac, t) =>
      ac.append(blank("product", t._2, 0, t._1).with("rows", product(t._1, t._2))))
    val idx2 = [(8, 2), (6, 3), (2, 17), (10, 1), (1, 40), (3, 9)].foldl([], (ac, t) =>
      ac.append(blank("indices", t._1, t._2, []).with("rows", product(upto(t._2), t._1))))
    val perm = range(0, 8).foldl([], (ac, n) => ac.append(blank("permutations", n, 0, []).with("rows", permutations(n))))
    val comb = LISTS.foldl([], (acc, v) => range(0, 5).foldl(acc, (ac, k) =>
      ac.append(if (k == 2) blank("combinations", k, 0, v).with("rows", pairs(v))
                else blank("combinations", k, 0, v).with("ok", false))))
    val prod = LISTS.select(v => v.length() <= 5).foldl([], (acc, v) => range(0, 5).foldl(acc, (ac, n) =>
      ac.append(blank("product", n, 0, v).with("rows", product(v, n)))))
    val idx = range(0, 5).foldl([], (acc, d) => range(0, 6).foldl(acc, (ac, m) =>
      ac.append(blank("indices", d, m, []).with("rows", product(upto(m), d)))))
    bin.concat(neg).concat(sums).concat(par).concat(two).concat(perm).concat(comb).concat(prod).concat(idx)
      .concat(big).concat(par2).concat(two2).concat(comb2).concat(prod2).concat(idx2)
  }

  var i: int
  var act: Act
  action init = all { i' = 0, act' = CASES[0] }
  action step = all { i + 1 < CASES.length(), i' = i + 1, act' = CASES[i + 1] }

  // random lists, beyond the fixed cases
  action initRandom = { nondet n = 1.to(8).oneOf() all { i' = n, act' = blank("permutations", 3, 0, []).with("rows", permutations(3)) } }
  action stepRandom = {
    nondet n = 0.to(7).oneOf()
    nondet base = 0.to(20).oneOf()
    nondet mulx = 0.to(6).oneOf()
    nondet modx = 1.to(9).oneOf()
    nondet op = Set("partitions", "two_parts", "product", "combinations", "sum").oneOf()
    val v = range(0, n).foldl([], (l, q) => l.append((base + mulx * q * q) % modx - 2))
    all {
      i' = i,
      act' = if (op == "partitions") blank(op, 0, 0, v).with("parts", partitions(v))
        else if (op == "two_parts") blank(op, 0, 0, v).with("parts", twoParts(v))
        else if (op == "product") blank(op, base % 4, 0, v.slice(0, if (n < 5) n else 5)).with("rows", product(v.slice(0, if (n < 5) n else 5), base % 4))
        else if (op == "sum") blank(op, 0, 0, v).with("num", v.foldl(0, (s, x) => s + x))
        else blank(op, 2, 0, v).with("rows", pairs(v)),
    }
  }

  // ---- specification-level properties ----
  pure val BELL = [1, 1, 2, 5, 15, 52, 203, 877, 4140, 21147]
  val counts = and {
    (act.op == "partitions" and act.v.length() > 0) implies act.parts.length() == BELL[act.v.length()],
    (act.op == "two_parts" and act.v.length() > 0) implies act.parts.length() == 2^(act.v.length() - 1) - 1,
    act.op == "permutations" implies act.rows.length() == factorial(act.a),
    (act.op == "binomial" and act.b >= 1 and act.a >= 1 and act.b <= act.a) implies
      act.num == binomial(act.a - 1, act.b) + binomial(act.a - 1, act.b - 1),
    (act.op == "product" and act.v.length() > 0 and act.a > 0) implies act.rows.length() == act.v.length()^act.a,
  }
}
