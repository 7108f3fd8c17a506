"""Stand-ins for torch, e3nn and mace: as much of them as reading a trained network needs.

Tensors are numpy arrays with the methods of torch tensors; networks are built from the records of
specs/extract.qnt in the layout the training code uses (flat weights in the order of e3nn's instructions,
channel-major features, contraction weights from the highest degree down)."""
import re
import sys
import types
from collections import namedtuple
import numpy as np
from common import fl

FILES = {}          # path -> network, what torch.load finds
FLAGS = {"old": False, "f64": True}


class Size(int):
    """x.size of numpy (a number) and x.size() of torch"""
    def __new__(cls, x):
        self = super().__new__(cls, int(np.prod(x.shape)))
        self.shape = x.shape
        return self

    def __call__(self, dim=None):
        return self.shape if dim is None else self.shape[dim]


class Tensor(np.ndarray):
    requires_grad = False

    def numpy(self, *, force=False):
        return np.asarray(self).view(np.ndarray)

    def detach(self):
        return self
    cpu = contiguous = requires_grad_ = eval = detach

    def clone(self):
        return wrap(np.array(self))

    def double(self):
        return wrap(np.asarray(self, dtype=np.float64))

    def float(self):
        return wrap(np.asarray(self, dtype=np.float32))

    def long(self):
        return wrap(np.asarray(self, dtype=np.int64))

    def to(self, *a, dtype=None, **k):
        for x in a:
            if isinstance(x, type) or isinstance(x, np.dtype):
                dtype = x
        return self if dtype is None else wrap(np.asarray(self, dtype=dtype))

    def type(self, dtype):
        return self.to(dtype)

    def unsqueeze(self, d):
        return np.expand_dims(self, d if d >= 0 else self.ndim + 1 + d)

    def squeeze(self, dim=None, axis=None):
        d = dim if dim is not None else axis
        return np.ndarray.squeeze(self) if d is None else (np.ndarray.squeeze(self, d) if self.shape[d] == 1 else self)

    def numel(self):
        return int(np.prod(self.shape))
    nelement = numel

    def dim(self):
        return self.ndim

    def t(self):
        return self.T

    def permute(self, *d):
        return np.ndarray.transpose(self, *d)

    def transpose(self, *d):
        return np.swapaxes(self, *d) if len(d) == 2 and not isinstance(d[0], tuple) else np.ndarray.transpose(self, *d)

    def view(self, *shape):
        if shape and (isinstance(shape[0], (int, np.integer)) or (isinstance(shape[0], (tuple, list)) and all(isinstance(i, int) for i in shape[0]))):
            return np.ndarray.reshape(self, *shape)
        return np.ndarray.view(self, *shape)

    def flatten(self, start=None, end=-1, **k):
        if start is None or isinstance(start, str):
            return np.ndarray.flatten(self)
        e = end % self.ndim
        return self.reshape(self.shape[:start] + (-1,) + self.shape[e + 1:])

    size = property(lambda self: Size(self))

    def item(self, *a):
        return np.asarray(self).item(*a)

    def _along(name):
        def f(self, dim=None, keepdim=False, dtype=None, **k):
            k = {a: b for a, b in k.items() if b is not None}
            out = k.pop("out", None)
            if name in ("max", "min", "sort", "median") and dim is not None and "axis" not in k:
                raise NotImplementedError(f"torch.Tensor.{name} along a dimension")
            if name in ("std", "var"):
                raise NotImplementedError(f"torch.Tensor.{name}")
            axis = k.pop("axis", dim)
            axis = tuple(axis) if isinstance(axis, list) else axis
            keep = k.pop("keepdims", keepdim)
            kw = {} if name in ("cumsum", "cumprod", "argsort", "argmax", "argmin") and not keep else {"keepdims": keep}
            if dtype is not None:
                kw["dtype"] = dtype
            return wrap(getattr(np, name)(np.asarray(self).view(np.ndarray), axis=axis, **kw, **k))
        return f
    for _n in ("sum", "mean", "prod", "max", "min", "all", "any", "cumsum", "cumprod", "argmax", "argmin", "std", "var"):
        locals()[_n] = _along(_n)
    del _n, _along

    def _plain(name):
        return lambda self, *a: wrap(getattr(np, name)(self, *a))
    for _n, _f in dict(exp="exp", log="log", sin="sin", cos="cos", add="add", sub="subtract", mul="multiply", div="divide", neg="negative", floor="floor",
                       ceil="ceil", outer="outer", isnan="isnan", isfinite="isfinite", eq="equal", ne="not_equal", gt="greater", lt="less",
                       ge="greater_equal", le="less_equal", diag="diag", trace="trace", multiply="multiply", divide="divide", sign="sign").items():
        locals()[_n] = _plain(_f)
    del _n, _f, _plain

    def repeat(self, *n, axis=None):
        if axis is not None:
            return np.ndarray.repeat(self, *n, axis=axis)
        return wrap(np.tile(np.asarray(self), tuple(n[0]) if isinstance(n[0], (tuple, list)) else n))

    def repeat_interleave(self, n, dim=None):
        return wrap(np.repeat(np.asarray(self), n, axis=dim))

    def expand(self, *n):
        n = tuple(n[0]) if isinstance(n[0], (tuple, list)) else n
        lead = len(n) - self.ndim
        return wrap(np.broadcast_to(np.asarray(self), tuple(self.shape[i - lead] if m == -1 else m for i, m in enumerate(n))))

    def expand_as(self, o):
        return wrap(np.broadcast_to(np.asarray(self), o.shape))

    def view_as(self, o):
        return self.reshape(o.shape)
    reshape_as = view_as

    def split(self, n, dim=0):
        cuts = range(n, self.shape[dim], n) if isinstance(n, int) else np.cumsum(n)[:-1]
        return tuple(wrap(x) for x in np.split(np.asarray(self), list(cuts), axis=dim))

    def chunk(self, k, dim=0):
        return self.split(-(-self.shape[dim] // k), dim)

    def unbind(self, dim=0):
        return tuple(wrap(x) for x in np.moveaxis(np.asarray(self), dim, 0))

    def select(self, dim, i):
        return wrap(np.take(np.asarray(self), i, axis=dim))

    def narrow(self, dim, start, n):
        return wrap(np.take(np.asarray(self), range(start, start + n), axis=dim))

    def index_select(self, dim, i):
        return wrap(np.take(np.asarray(self), np.asarray(i), axis=dim))

    def unflatten(self, dim, n):
        d = dim % self.ndim
        return self.reshape(self.shape[:d] + tuple(n) + self.shape[d + 1:])

    def norm(self, p=2, dim=None, keepdim=False):
        return wrap(np.linalg.norm(np.asarray(self), None if p == 2 else p, dim, keepdim))

    def bmm(self, o):
        return self @ o

    def inverse(self):
        return wrap(np.linalg.inv(self))

    def new_zeros(self, *n, **k):
        return wrap(np.zeros(n[0] if isinstance(n[0], (tuple, list)) else n, dtype=self.dtype))

    def new_tensor(self, x, **k):
        return wrap(np.array(x, dtype=self.dtype))

    @property
    def mT(self):
        return np.swapaxes(self, -1, -2)
    is_cuda = False
    device = "cpu"
    grad = None

    def abs(self):
        return np.abs(self)

    def pow(self, p):
        return self ** p

    def square(self):
        return self * self

    def tanh(self):
        return np.tanh(self)

    def sqrt(self):
        return np.sqrt(self)

    def matmul(self, o):
        return self @ o
    mm = matmul

    @property
    def data(self):
        return self

    @data.setter
    def data(self, v):
        self[...] = v


def wrap(x):
    return np.asarray(x).view(Tensor)


def unwrap_kw(k):
    k = {a: b for a, b in k.items() if a not in ("device", "requires_grad")}
    if "dim" in k:
        k["axis"] = k.pop("dim")
    return k


DEFAULT = [np.float32]


def fresh(f):
    """creation functions: the default type unless one is given"""
    def g(*a, dtype=None, **k):
        if len(a) > 1 and f in (np.zeros, np.ones, np.empty) and all(isinstance(i, (int, np.integer)) for i in a):
            a = (a,)
        return wrap(f(*a, dtype=dtype or DEFAULT[0], **unwrap_kw(k)))
    return g


def tensor(x, dtype=None, **k):
    a = np.array(x)
    if dtype is None and a.dtype.kind == "f":
        dtype = DEFAULT[0] if not isinstance(x, np.ndarray) else a.dtype
    return wrap(a if dtype is None else a.astype(dtype))


class no_grad:
    def __init__(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def make_torch():
    t = types.ModuleType("torch")
    t.Tensor = Tensor
    t.float64 = t.double = np.float64
    t.float32 = t.float = np.float32
    t.int64 = t.long = np.int64
    t.int32 = t.int = np.int32
    t.bool = np.bool_
    t.dtype = type
    t.get_default_dtype = lambda: DEFAULT[0]
    t.set_default_dtype = lambda d: DEFAULT.__setitem__(0, np.dtype(d).type)
    t.device = lambda *a: "cpu"
    t.load = lambda path, **k: FILES[str(path)]()
    t.no_grad = t.inference_mode = no_grad
    t.zeros, t.ones, t.eye, t.empty, t.linspace, t.full = map(fresh, (np.zeros, np.ones, np.eye, np.empty, np.linspace, np.full))
    t.arange = lambda *a, dtype=None, **k: wrap(np.arange(*a, dtype=dtype))
    t.tensor = t.as_tensor = t.asarray = tensor
    t.from_numpy = wrap
    t.reshape = lambda x, s: wrap(np.reshape(x, s))
    t.serialization = types.SimpleNamespace(add_safe_globals=lambda *a: None)
    t.nn = types.SimpleNamespace(Module=object, Parameter=lambda x, **k: x)
    t.linalg = types.SimpleNamespace(inv=lambda a: wrap(np.linalg.inv(a)), matrix_rank=lambda a: wrap(np.linalg.matrix_rank(a)),
                                     solve=lambda a, b: wrap(np.linalg.solve(a, b)))
    t.matmul = t.mm = lambda a, b: a @ b
    t.cat = lambda l, dim=0: wrap(np.concatenate(l, axis=dim))

    METHODS = ("transpose permute split chunk unbind select narrow index_select repeat_interleave norm squeeze unsqueeze flatten unflatten sum mean prod max "
               "min all any cumsum cumprod argmax argmin bmm inverse t numel").split()

    def other(name):
        if name in METHODS:
            return lambda x, *a, **k: getattr(Tensor, name)(wrap(x), *a, **k)
        f = getattr(np, name, None)
        if f is None or name in ("sort", "unique", "median", "std", "var", "gather"):
            raise AttributeError(f"module 'torch' (stand-in) has no attribute '{name}'", name=name, obj=t)
        return lambda *a, **k: wrap(f(*a, **unwrap_kw(k)))
    t.__getattr__ = other
    return t


# ---- e3nn ----
class Irrep:
    def __init__(self, l, p=None):
        if isinstance(l, Irrep):
            l, p = l.l, l.p
        elif isinstance(l, str):
            m = re.fullmatch(r"\s*(\d+)([eoy])\s*", l)
            l, p = int(m[1]), {"e": 1, "o": -1, "y": (-1) ** int(m[1])}[m[2]]
        self.l, self.p, self.dim = l, p, 2 * l + 1

    def __eq__(self, o):
        o = Irrep(o)
        return (self.l, self.p) == (o.l, o.p)

    def __hash__(self):
        return hash((self.l, self.p))

    def __repr__(self):
        return f"{self.l}{'e' if self.p == 1 else 'o'}"

    def __iter__(self):
        return iter((self.l, self.p))


class MulIr(tuple):
    mul = property(lambda s: s[0])
    ir = property(lambda s: s[1])
    dim = property(lambda s: s[0] * s[1].dim)

    def __repr__(self):
        return f"{self[0]}x{self[1]}"


class Irreps(tuple):
    def __new__(cls, x=()):
        if isinstance(x, Irreps):
            return x
        out = []
        if isinstance(x, Irrep):
            x = [(1, x)]
        if isinstance(x, str):
            for part in filter(None, (q.strip() for q in x.split("+"))):
                mul, _, ir = part.rpartition("x")
                out.append(MulIr((int(mul or 1), Irrep(ir))))
        else:
            for it in x:
                if isinstance(it, (Irrep, str)):
                    out += list(Irreps(it)) if isinstance(it, str) else [MulIr((1, it))]
                else:
                    out.append(MulIr((int(it[0]), Irrep(it[1]))))
        return super().__new__(cls, out)

    def __getitem__(self, i):
        r = super().__getitem__(i)
        return Irreps(r) if isinstance(i, slice) else r

    def count(self, ir):
        return sum(m for m, i in self if i == Irrep(ir))

    def simplify(self):
        out = []
        for m, ir in self:
            if m and out and out[-1][1] == ir:
                out[-1] = (out[-1][0] + m, ir)
            elif m:
                out.append((m, ir))
        return Irreps(out)
    lmax = property(lambda s: max(ir.l for _, ir in s))
    ls = property(lambda s: [ir.l for m, ir in s for _ in range(m)])
    dim = property(lambda s: sum(m * ir.dim for m, ir in s))
    num_irreps = property(lambda s: sum(m for m, _ in s))

    def __repr__(self):
        return "+".join(map(repr, self))


Ins = namedtuple("Instruction", "i_in1 i_in2 i_out has_weight path_shape")
LinIns = namedtuple("Instruction", "i_in i_out path_shape path_weight")


class Weighted:
    """weights in one flat array, a view of it per instruction"""

    def _shapes(self):
        return [i.path_shape for i in self.instructions]

    @property
    def weight_numel(self):
        return sum(int(np.prod(s)) for s in self._shapes())

    def weight_view_for_instruction(self, n, weight=None):
        w = self.weight if weight is None else weight
        sh = self._shapes()
        at = sum(int(np.prod(s)) for s in sh[:n])
        return w[at:at + int(np.prod(sh[n]))].reshape(sh[n])

    def weight_views(self, weight=None, yield_instruction=False):
        for n, i in enumerate(self.instructions):
            v = self.weight_view_for_instruction(n, weight)
            yield (n, i, v) if yield_instruction else v


class Linear(Weighted):
    def __init__(self, irreps_in, irreps_out, weight=None, **k):
        self.irreps_in, self.irreps_out = Irreps(irreps_in), Irreps(irreps_out)
        self.instructions = [LinIns(i, o, (mi, mo), 1.0)
                             for i, (mi, ri) in enumerate(self.irreps_in) for o, (mo, ro) in enumerate(self.irreps_out) if ri == ro]
        self.weight = wrap(np.zeros(self.weight_numel)) if weight is None else wrap(np.array(weight, dtype=float))
        self.bias = wrap(np.zeros(0))
        assert self.weight.shape == (self.weight_numel,), (self.weight.shape, self.weight_numel)


class TensorProduct(Weighted):
    def __init__(self, irreps_in1, irreps_in2, irreps_out, instructions, weight):
        self.irreps_in1, self.irreps_in2, self.irreps_out = map(Irreps, (irreps_in1, irreps_in2, irreps_out))
        self.instructions = instructions
        self.weight = wrap(np.array(weight, dtype=float))


def parity(l):
    return Irrep(l, (-1) ** l)


def spread(mul, ls):
    return Irreps([(mul, parity(l)) for l in ls])


# ---- mace ----
class Named:
    def __init__(self, **k):
        self.__dict__.update(k)

    def to(self, *a, **k):
        return self
    cpu = double = eval = to


BLOCKS = {n: type(n, (Named,), {}) for n in (
    "RealAgnosticInteractionBlock", "RealAgnosticDensityInteractionBlock",
    "RealAgnosticResidualInteractionBlock", "RealAgnosticDensityResidualInteractionBlock",
    "RealAgnosticAttResidualInteractionBlock", "RealAgnosticResidualNonLinearInteractionBlock")}
ZBLBasis = type("ZBLBasis", (Named,), {})
OtherRepulsion = type("OtherRepulsion", (Named,), {})


def scalar(x):
    return wrap(np.array(x))


def reshaped(net, lmax):
    """A network of another degree, made from a record of degree 3 (it is to be refused)."""
    K = net["K"]
    n = dict(net)
    keep = [p for p in range(len(net["pl"])) if net["pl"][p] <= lmax and net["pl1"][p] <= lmax]
    new = {p: q for q, p in enumerate(keep)}
    for k in ("pl", "pl1", "pl2"):
        n[k] = [net[k][p] for p in keep]
    n["cg"] = [dict(g, p=new[g["p"]]) for g in net["cg"] if g["p"] in new]
    for k in ("lin0", "skip0"):
        n[k] = [net[k][min(l, 3)] for l in range(lmax + 1)]
    if lmax > 3:
        for k, v in (("pl", 4), ("pl1", 4), ("pl2", 0)):
            n[k] = n[k] + [v]
        n["cg"] = n["cg"] + [{"p": len(keep), "m1": m, "m2": 0, "m": m, "v": net["cg"][0]["v"]} for m in range(9)]
    n["lin1"] = [[net["lin1"][0][0]] * (n["pl"].count(l) * K * K) for l in range(lmax + 1)]
    n["c0"] = [net["c0"][0]] * (2 * (lmax + 1) * K)
    n["c1"] = [net["c1"][0]] * (2 * len(n["pl"]) * K)
    return n


def network(net, ask, head=None):
    """The network object for a record; with several heads until one is chosen."""
    K, ne, L, Z = net["K"], net["ne"], net["Lmax"], net["Z"]
    heads = net["heads"] if head is None else [net["heads"][head]]
    fault = ask["fault"]
    rc = fl(net["rc"])
    f = lambda x: np.array(fl(x), dtype=float)      # noqa: E731
    pc = f(net["pc"])
    pairs = {}
    q = 0
    for a in range(ne):
        for b in range(a, ne):
            pairs[frozenset((Z[a], Z[b]))] = pc[q]
            q += 1

    def radial_embedding(lengths, node_attrs, edge_index, numbers, *more):
        r = np.asarray(lengths).reshape(-1, 1)
        own = np.asarray(numbers)[np.argmax(np.asarray(node_attrs), axis=1)]
        e = np.asarray(edge_index)
        c = pairs[frozenset((int(own[e[0, 0]]), int(own[e[1, 0]])))]
        u = r / rc
        out = wrap((np.concatenate([c[0] * (1 - u) ** 2, c[1] * (1 - u) ** 2 * u], axis=1)).astype(np.float64))
        return (out, wrap((1 - u) ** 2)) if ask["pair"] else out

    def through(c, cols):
        m = f(c).reshape(2, cols)
        return lambda b: wrap(np.asarray(b) @ m)

    lmax = {"l_max 2": 2, "l_max 4": 4}.get(fault, 3)
    if lmax != 3:
        net = reshaped(net, lmax)
    L = net["Lmax"]
    ls, Ls = list(range(lmax + 1)), list(range(L + 1))
    P = len(net["pl"])
    coupling = {}
    for g in net["cg"]:
        coupling.setdefault(g["p"], []).append((g["m1"], g["m2"], g["m"], fl(g["v"])))

    class ConvTP(TensorProduct):
        def __call__(self, H, Y, R):
            H, Y, R = (np.asarray(x) for x in (H, Y, R))
            blocks = []
            for p in range(P):
                l, l1, l2 = net["pl"][p], net["pl1"][p], net["pl2"][p]
                h = H[:, l2 * l2 * K:(l2 + 1) ** 2 * K].reshape(-1, K, 2 * l2 + 1)
                out = np.zeros((H.shape[0], K, 2 * l + 1))
                for m1, m2, m, v in coupling.get(p, []):
                    out[:, :, m] += v * h[:, :, m2] * Y[:, l1 * l1 + m1][:, None] * R[:, p * K:(p + 1) * K]
                blocks.append(out.reshape(H.shape[0], -1))
            return wrap(np.concatenate(blocks, axis=1))

    def density(c):
        return through(c, 1)

    mids = Irreps([(K, parity(l)) for l in net["pl"]])
    skip0 = TensorProduct(spread(K, ls), f"{ne}x0e", spread(K, ls),
                          [Ins(l, 0, l, True, (K, ne, K)) for l in ls], np.concatenate([f(x) for x in net["skip0"]]))
    first = dict(
        linear_up=Linear(f"{K}x0e", f"{K}x0e", f(net["up0"])),
        linear=Linear(spread(K, ls), spread(K, ls), np.concatenate([f(x) for x in net["lin0"]])),
        skip_tp=skip0, conv_tp_weights=through(net["c0"], (lmax + 1) * K), avg_num_neighbors=fl(net["avg0"]),
        conv_tp=TensorProduct(f"{K}x0e", spread(1, ls), spread(K, ls), [Ins(0, l, l, True, (K, 1)) for l in ls], np.zeros(0)))
    up1 = [f(x) for x in net["up1"]]
    if fault == "singular":
        m = up1[0].reshape(K, K)
        # of deficient rank up to rounding
        m[-1, :] = m[0, :] if K > 1 else 0.0
        m[-1, -1] = np.nextafter(m[-1, -1], 9.0) if K > 1 else 0.0
    second = dict(
        linear_up=Linear(spread(K, Ls), spread(K, Ls), np.concatenate(up1)),
        linear=Linear(mids, spread(K, ls), np.concatenate([f(x) for x in net["lin1"]])),
        skip_tp=TensorProduct(spread(K, Ls), f"{ne}x0e", f"{K}x0e", [Ins(0, 0, 0, True, (K, ne, K))], f(net["skip1"])),
        conv_tp_weights=through(net["c1"], P * K), avg_num_neighbors=fl(net["avg1"]),
        conv_tp=ConvTP(spread(K, Ls), spread(1, ls), mids,
                       [Ins(net["pl2"][p], net["pl1"][p], p, True, (K, 1)) for p in range(P)], np.zeros(0)))
    if net["den0"]:
        first["density_fn"] = density(net["cd0"])
    if net["den1"]:
        second["density_fn"] = density(net["cd1"])
    names = ["RealAgnosticDensityInteractionBlock" if net["den0"] else "RealAgnosticInteractionBlock",
             "RealAgnosticDensityResidualInteractionBlock" if net["den1"] else "RealAgnosticResidualInteractionBlock"]
    if fault == "first block":
        names[0] = "RealAgnosticResidualNonLinearInteractionBlock"
    if fault == "second block":
        names[1] = "RealAgnosticAttResidualInteractionBlock"
    if fault == "blocks swapped":
        names.reverse()
    layers = [BLOCKS[names[0]](**first), BLOCKS[names[1]](**second)]
    layers = {"one layer": layers[:1], "three layers": layers + layers[1:]}.get(fault, layers)

    def contraction(ws, sets):
        w = [f(x).reshape(ne, s["neta"], K) for x, s in zip(ws, sets)]
        return Named(correlation=3, weights_max=wrap(w[2]), weights=[wrap(w[1]), wrap(w[0])])

    products = [
        Named(symmetric_contractions=Named(irreps_in=spread(K, ls), irreps_out=spread(K, Ls),
                                           contractions=[contraction(net["W0"][l], net["U"][l]) for l in Ls]),
              linear=Linear(spread(K, Ls), spread(K, Ls), np.concatenate([f(x) for x in net["p0"]]))),
        Named(symmetric_contractions=Named(irreps_in=spread(K, ls), irreps_out=spread(K, [0]),
                                           contractions=[contraction(net["W1"], net["U"][0])]),
              linear=Linear(f"{K}x0e", f"{K}x0e", f(net["p1"])))]
    h = heads[0]
    nh = len(heads)
    # a network of several heads has wider read-outs
    stack = lambda x, rows, cols: np.stack([f(q[x]).reshape(rows, cols) for q in heads], axis=1).reshape(-1)   # noqa: E731
    model = Named(
        atomic_numbers=wrap(np.array(Z, dtype=np.int64)), r_max=scalar(rc), num_interactions=scalar(len(layers)),
        spherical_harmonics=Named(_lmax=lmax, irreps_out=spread(1, range(lmax + 1))),
        node_embedding=Named(linear=Linear(f"{ne}x0e", f"{K}x0e", f(net["emb"]))),
        radial_embedding=radial_embedding, interactions=layers, products=products,
        atomic_energies_fn=Named(atomic_energies=wrap(np.array([fl(q["E0"]) for q in heads]) if ask["attr"] or nh > 1 else f(h["E0"]))),
        scale_shift=Named(scale=wrap(np.array([fl(q["scale"]) for q in heads]) if nh > 1 else np.array(fl(h["scale"]))),
                          shift=wrap(np.array([fl(q["shift"]) for q in heads]) if nh > 1 else np.array(fl(h["shift"])))),
        readouts=[Named(linear=Linear(f"{K}x0e", f"{nh}x0e", stack("ro1", K, 1))),
                  Named(linear_1=Linear(f"{K}x0e", f"{16 * nh}x0e", stack("ro2a", K, 16)),
                        linear_2=Linear(f"{16 * nh}x0e", f"{nh}x0e", np.stack([f(q["ro2b"]) for q in heads]).reshape(-1)
                                        if nh == 1 else np.zeros(16 * nh * nh)),
                        non_linearity=Named(acts=[Named(cst=fl(net["sc"]))]))])
    model.parameters = lambda: iter([layers[0].linear_up.weight])
    if ask["attr"] or nh > 1:
        model.heads = [q["name"] for q in heads]
    if net["zbl"] or fault == "other repulsion":
        p = net["par"]
        model.pair_repulsion = True
        kind = OtherRepulsion if fault == "other repulsion" else ZBLBasis
        model.pair_repulsion_fn = kind(a_exp=scalar(fl(p["expo"])), a_prefactor=scalar(fl(p["pref"])), c=wrap(f(p["c"])),
                                       covalent_radii=wrap(f(p["cov"])), p=scalar(p["p"]))
    elif ask["old"]:
        model.pair_repulsion = False
    model._record = (net, ask)
    FLAGS["net"], FLAGS["old"] = net, ask["old"]
    return model


def remove_pt_head(model, head_to_keep=None):
    if not hasattr(model, "heads") or len(model.heads) <= 1:
        raise ValueError("Model must be a multihead model with more than one head")
    if head_to_keep is None:
        i = next((i for i, h in enumerate(model.heads) if h != "pt_head"), None)
    else:
        i = model.heads.index(head_to_keep) if head_to_keep in model.heads else None
    if i is None:
        raise ValueError(f"Head {head_to_keep} not found in model. Available heads: {model.heads}")
    return network(*model._record, head=i)


def U_matrix(irreps_in, irreps_out, correlation, **kw):
    irreps_in, irreps_out = Irreps(irreps_in), Irreps(irreps_out)
    dim = sum(ir.dim for _, ir in irreps_in)
    out = []
    for _, ir in irreps_out:
        s = FLAGS["net"]["U"][ir.l][correlation - 1]
        u = np.zeros((2 * ir.l + 1,) + (dim,) * correlation + (s["neta"],))
        for e in s["es"]:
            if max(e["lms"]) < dim:
                u[(e["m"],) + tuple(e["lms"]) + (e["eta"],)] += fl(e["v"])
        out += [ir, wrap(u if ir.l else u[0])]
    return out


def U_matrix_real(irreps_in, irreps_out, correlation, *a, **kw):
    if FLAGS["old"] and "use_cueq_cg" in kw:
        raise TypeError("U_matrix_real() got an unexpected keyword argument 'use_cueq_cg'")
    return U_matrix(irreps_in, irreps_out, correlation)


def install():
    def module(name, **k):
        m = sys.modules[name] = types.ModuleType(name)
        m.__dict__.update(k)
        return m
    sys.modules["torch"] = make_torch()
    # imported by the conversion, not used; the real one writes caches
    quiet = module("matplotlib.pyplot")
    quiet.__getattr__ = lambda n: lambda *a, **k: None
    module("matplotlib", pyplot=quiet)
    module("e3nn").o3 = module("e3nn.o3", Irrep=Irrep, Irreps=Irreps, Linear=Linear, wigner_3j=None)
    blocks = module("mace.modules.blocks", **BLOCKS)
    radial = module("mace.modules.radial", ZBLBasis=ZBLBasis)
    module("mace.modules", blocks=blocks, radial=radial, **BLOCKS)
    cg = module("mace.tools.cg", U_matrix_real=U_matrix_real)
    su = module("mace.tools.scripts_utils", remove_pt_head=remove_pt_head)
    module("mace.tools", cg=cg, scripts_utils=su)
    module("mace", modules=sys.modules["mace.modules"], tools=sys.modules["mace.tools"])


def beyond(e):
    """Did the code ask for something torch, e3nn or mace may have and the stand-ins do not?"""
    if isinstance(e, (ImportError, NotImplementedError)):
        return True
    if isinstance(e, TypeError) and re.search(r"unexpected keyword|invalid keyword|positional argument", str(e)):
        name = re.match(r"([A-Za-z_]\w*)\(\)", str(e))         # a function of the code itself?
        return not (name and any(name[1] in vars(m) for k, m in list(sys.modules.items()) if "extract_mace_data" in k and m))
    o = getattr(e, "obj", None) if isinstance(e, AttributeError) else None
    return isinstance(o, (Tensor, Named, Irrep, MulIr, Irreps, Weighted, types.SimpleNamespace)) or (
        isinstance(o, types.ModuleType) and o.__name__.split(".")[0] in ("torch", "e3nn", "mace"))
