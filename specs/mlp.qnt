// Multilayer perceptron: linear maps with a scaled SiLU between them, none after the last.
// An object is (shape, weights, scale).  Every operation is a function of the object and the call's
// own input: the batched operations are the single ones row by row, the gradient is the Jacobian.
module mlp {
  import fix.* from "./fix"
  type Obj = { shape: List[int], ws: List[List[int]], scale: int }
  type Act = { op: str, k: int, n: int, obj: Obj, x: List[int],
               out: List[int], grad: List[int], vmag: int, gmag: int }
  pure val NOBJ: Obj = { shape: [], ws: [], scale: 0 }

  pure def sigmoid(x: int): int =
    if (x >= 0) div(ONE, ONE + exp(-x)) else { val e = exp(x) div(e, ONE + e) }

  pure def last(l: List[int]): int = l[l.length() - 1]

  // W is rows x cols, row major
  pure def matvec(W: List[int], rows: int, cols: int, v: List[int]): List[int] =
    range(0, rows).foldl([], (tab_, i) => tab_.append(range(0, cols).foldl(0, (s, j) => s + W[i * cols + j] * v[j]) / ONE))

  // value and Jacobian by forward propagation; state: (values, Jacobian rows [node][input])
  type Fwd = { v: List[int], J: List[List[int]] }
  pure def forward(o: Obj, x: List[int], withJ: bool): Fwd = {
    val nin = o.shape[0]
    val L = o.ws.length()
    val start: Fwd = { v: x, J: if (withJ) range(0, nin).foldl([], (l, i) => l.append(range(0, nin).foldl([], (tab_, j) => tab_.append(if (i == j) ONE else 0)))) else [] }
    range(0, L).foldl(start, (st, l) => {
      val rows = o.shape[l + 1]
      val cols = o.shape[l]
      val z = matvec(o.ws[l], rows, cols, st.v)
      val sg = if (l == L - 1) [] else z.foldl([], (a, q) => a.append(sigmoid(q)))
      val out = if (l == L - 1) z else range(0, rows).foldl([], (tab_, i) => tab_.append(mul(o.scale, mul(z[i], sg[i]))))
      val act = if (l == L - 1) range(0, rows).foldl([], (tab_, _) => tab_.append(ONE))
                else range(0, rows).foldl([], (tab_, i) => tab_.append(mul(o.scale, sg[i] + mul(z[i], mul(sg[i], ONE - sg[i])))))
      val J = if (not(withJ)) [] else range(0, rows).foldl([], (a, i) => a.append(
          range(0, nin).foldl([], (tab_, p) => tab_.append(mul(act[i], range(0, cols).foldl(0, (s, j) => s + o.ws[l][i * cols + j] * st.J[j][p]) / ONE)))))
      { v: out, J: J }
    })
  }
  pure def flat(ls: List[List[int]]): List[int] = ls.foldl([], (a, l) => a.concat(l))
  pure def row(x: List[int], i: int, w: int): List[int] = x.slice(i * w, (i + 1) * w)

  // magnitude of the terms that are summed: the same propagation with absolute values
  pure def mag(o: Obj, x: List[int]): int = {
    val L = o.ws.length()
    val m = range(0, L).foldl(x.foldl([], (a, q) => a.append(abs(q))), (st, l) =>
      range(0, o.shape[l + 1]).foldl([], (tab_, i) => tab_.append(mul(if (l == L - 1) ONE else abs(o.scale),
        range(0, o.shape[l]).foldl(0, (t, j) => t + abs(o.ws[l][i * o.shape[l] + j]) * st[j]) / ONE))))
    m.foldl(0, (t, q) => imax(t, q))
  }
  pure def rowMax(x: List[int], n: int, w: int): List[int] =
    range(0, w).foldl([], (tab_, j) => tab_.append(range(0, n).foldl(0, (t, i) => imax(t, abs(x[i * w + j])))))

  pure def mkObj(seed: int, shape: List[int], wsc: int, scale: int): Obj = {
    shape: shape,
    ws: range(0, shape.length() - 1).foldl([], (l, i) =>
          l.append(range(0, shape[i] * shape[i + 1]).foldl([], (tab_, q) => tab_.append(mul(wsc, rnd(seed, 10000 * i + q)))))),
    scale: scale
  }

  var objs: List[Obj]
  var act: Act

  action store(o: Obj, k: int): bool = {
    val kk = if (k < objs.length()) k else objs.length()
    all {
      objs' = if (kk < objs.length()) objs.replaceAt(kk, o) else objs.append(o),
      act' = { op: "build", k: kk, n: 0, obj: o, x: act.x, out: [], grad: [], vmag: 0, gmag: 0 },
    }
  }
  pure val SHAPES: Set[List[int]] = Set(
    [1, 1], [2, 1], [3, 2], [4, 4], [1, 2, 1], [2, 3, 1], [3, 2, 2], [4, 5, 1], [2, 5, 3], [5, 1, 2],
    [3, 4, 2, 1], [2, 2, 2, 2], [1, 3, 4, 2], [4, 3, 3, 3], [3, 3, 3, 3, 1], [2, 3, 2, 4, 3], [2, 7, 1, 3, 2],
    [2, 16, 1], [4, 16, 1], [8, 16, 1], [1, 17, 1], [6, 9, 8, 3], [3, 6, 6, 6, 6, 2])
  pure val WIDE: Set[List[int]] = Set([16, 16, 1], [33, 16, 1], [10, 40, 3], [8, 64, 64, 4], [64, 16, 1], [4, 33, 20, 9])

  action build(shapes: Set[List[int]]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet shape = shapes.oneOf()
    nondet wsc = Set(ONE / 2, ONE, ONE, 2 * ONE, 12 * ONE).oneOf()
    nondet scale = Set(ONE, 1679 * (ONE / 1024), -ONE / 2, ONE / 4, 3 * ONE).oneOf()
    nondet k = 0.to(1).oneOf()
    nondet alike = 0.to(2).oneOf()      // sometimes another network of the same shape
    store(mkObj(seed, if (alike == 0) objs[0].shape else shape, wsc, scale), k)
  }
  // the inputs of a call: fresh, or the previous ones, with a single entry changed or without a change
  pure def inputs(seed: int, len: int, prev: List[int], how: int, sc: int): List[int] =
    if (how == 0 and prev.length() == len) range(0, len).foldl([], (tab_, i) => tab_.append(if (i == len - 1) prev[i] + ONE / 8 else prev[i]))
    else if (how == 1 and prev.length() == len) range(0, len).foldl([], (tab_, i) => tab_.append(if (i == rndInt(seed, 0, len)) -prev[i] - ONE / 16 else prev[i]))
    else if (how >= 6 and prev.length() >= len) prev.slice(0, len)
    else if (how == 2) range(0, len).foldl([], (tab_, i) => tab_.append(if (rndInt(seed, i, 2) == 0) 0 else mul(sc, rnd(seed, i))))
    else range(0, len).foldl([], (tab_, i) => tab_.append(mul(sc, rnd(seed, i))))

  action call(batches: Set[int]): bool = {
    nondet k = objs.indices().oneOf()
    val o = objs[k]
    nondet op = Set("evaluate", "gradient", "batch", "gradient_batch").oneOf()
    nondet b = batches.oneOf()
    nondet seed = 0.to(10^15).oneOf()
    nondet how = 0.to(7).oneOf()
    nondet sc = Set(ONE, 2 * ONE, ONE / 16).oneOf()
    val n = if (op == "batch" or op == "gradient_batch") b else 1
    val nin = o.shape[0]
    val x = inputs(seed, n * nin, act.x, how, sc)
    val withJ = op == "gradient" or op == "gradient_batch"
    val rs = range(0, n).foldl([], (l, i) => l.append(forward(o, row(x, i, nin), withJ)))
    all {
      objs' = objs,
      act' = {
        op: op, k: k, n: n, obj: NOBJ, x: x,
        out: rs.foldl([], (a, r) => a.concat(r.v)),
        grad: if (withJ) rs.foldl([], (a, r) => a.concat(flat(r.J))) else [],
        vmag: mag(o, rowMax(x, n, nin)), gmag: 2 * mag(o, range(0, nin).foldl([], (tab_, _) => tab_.append(ONE))),
      },
    }
  }
  action initWith(shapes: Set[List[int]]): bool = {
    nondet seed = 0.to(10^15).oneOf()
    nondet shape = shapes.oneOf()
    val o = mkObj(seed, shape, ONE, 1679 * (ONE / 1024))
    all { objs' = [o], act' = { op: "build", k: 0, n: 0, obj: o, x: [], out: [], grad: [], vmag: 0, gmag: 0 } }
  }
  action init = initWith(SHAPES)
  action step = any { call(Set(1, 2, 3, 5, 8, 13)), call(Set(1, 2, 3, 5, 8, 13)), call(Set(1, 4, 17)),
                      call(Set(1, 2, 3, 5, 8, 13)), build(SHAPES) }
  // few, large calls
  action initWide = initWith(WIDE)
  action stepWide = any { call(Set(1, 2, 3)), build(WIDE) }
  pure val TINY: Set[List[int]] = Set([1, 1], [2, 3, 1], [1, 2, 2], [2, 2, 1, 2])
  action initBig = initWith(TINY)
  action stepBig = any { call(Set(31, 33, 64, 65, 100, 129, 260)), call(Set(1, 2, 150)), build(TINY) }

  // ---- specification-level property: the Jacobian is the derivative of the value ----
  val jacobian = act.op == "gradient" implies {
    val o = objs[act.k]
    val d = ONE / 2^30
    val nin = o.shape[0]
    val nout = last(o.shape)
    val p = act.x.length() - 1
    val hi = forward(o, act.x.replaceAt(p, act.x[p] + d), false).v
    val lo = forward(o, act.x.replaceAt(p, act.x[p] - d), false).v
    range(0, nout).indices().forall(i =>
      abs(div(hi[i] - lo[i], 2 * d) - act.grad[i * nin + p]) <= mul(mul(act.gmag, act.gmag), ONE / 2^36) + ONE / 2^36)
  }
}
