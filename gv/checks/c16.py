"""C16 pooling, normalisation, activation and wrapper modules"""
import copy
import itertools

import torch
import torch.nn as nn

from gconv import gnn
from gv import layers as L, refs
from gv.core import Family
from gv.refs import D

PROPERTY = "C16"


def fmap(ctx, n, N=None, C=None, G=None, lo=1, hi=6):
    """feature map (N, C, G, *dims) with ties, negative values and odd layouts"""
    N = N or ctx.size(1, 3, 12)
    C = C or ctx.size(1, 4)
    G = G or ctx.size(1, 5, 24)
    dims = [ctx.rng.randint(lo, hi) for _ in range(n)]
    if ctx.rng.random() < 0.18:  # one axis as long as in practice, the others short
        ctx.event("large-size")
        N, C, G, dims = min(N, 2), min(C, 2), min(G, 3), [min(d, max(lo, 3)) for d in dims]
        long = ctx.rng.choice([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257])
        where = ctx.rng.choice(["N", "C", "G", "space", "space"])
        if where == "space" and n:
            dims[ctx.rng.randrange(n)] = long
        N, C, G = (long if where == k else v for k, v in (("N", N), ("C", C), ("G", G)))
    dt = ctx.rng.choice([D, D, torch.float32])
    x = torch.randn(N, C, G, *dims, dtype=D)
    kind = ctx.rng.choice(["normal", "negative", "ties", "large"])
    if kind == "negative":
        x = -x.abs() - 1
    if kind == "ties":
        x = (x * 2).round()
    if kind == "large":
        x = x * 1e4
    layout = ctx.rng.choice(["contiguous", "contiguous", "channels-last", "transposed", "slice", "expanded"])
    if layout == "channels-last":
        x = x.movedim(1, -1).contiguous().movedim(-1, 1)
    if layout == "transposed":
        x = x.transpose(1, 2).contiguous().transpose(1, 2)
    if layout == "slice":
        x = torch.stack((x, x * 0 + 9e9), -1)[..., 0]
    if layout == "expanded":
        x = x[:1].expand(N, *x.shape[1:])
    x = x.to(dt)
    if kind != "ties" and dt == D and ctx.rng.random() < 0.4:
        x.requires_grad_(True)
    ctx.describe(shape=list(x.shape), dtype=str(dt), values=kind, layout=layout, grad=x.requires_grad)
    return x


def grads(ctx, y, want, x):
    """the gradient that reaches the input is the gradient of the reference"""
    if not x.requires_grad or not want.requires_grad:
        return
    ctx.check("differentiable", y.requires_grad, "the result is cut off from the graph")
    w = torch.randn(want.shape, dtype=D)
    g, = torch.autograd.grad((y * w).sum(), x)
    v, = torch.autograd.grad((want * w).sum(), x)
    ctx.close("input-gradient", g, v, 1e-8 * max(1.0, v.abs().max().item(), x.detach().abs().max().item() ** 2))


def gridH(ctx, G):
    return torch.randn(G, ctx.rng.choice([1, 2, 10]), dtype=D)


def out2(ctx, name, r, H):
    ctx.check("returns-the-grid", isinstance(r, tuple) and len(r) == 2, f"{name} returned {type(r)}")
    ctx.same("grid-passes-through", r[1], H)
    return r[0]


def tol(x):
    return (1e-11 if x.dtype == D else 1e-4) * max(1.0, x.abs().max().item())


def window(x, ks, st, pd, dil, n, op, count_pad=True, ceil=False, divisor=None):
    """sliding window reference on the last n axes, by explicit enumeration"""
    x = x.to(D)
    dims = x.shape[-n:]
    osz = []
    for L, k, s, p, d in zip(dims, ks, st, pd, dil):
        num = L + 2 * p - d * (k - 1) - 1
        o = (-(-num // s) if ceil else num // s) + 1
        if ceil and (o - 1) * s >= L + p:
            o -= 1
        osz.append(o)
    out = torch.empty(*x.shape[:-n], *osz, dtype=D)
    for pos in itertools.product(*[range(o) for o in osz]):
        idx, area = [], 1
        for a, (i, k, s, p, d, L) in enumerate(zip(pos, ks, st, pd, dil, dims)):
            start = i * s - p
            r = [start + j * d for j in range(k) if 0 <= start + j * d < L]
            idx.append(r)
            area *= (min(start + k, L + p) - start) if count_pad else len(r)
        v = x
        for a, r in enumerate(idx):
            v = v.index_select(x.ndim - n + a, torch.tensor(r))
        v = v.flatten(-n)
        out[(...,) + pos] = v.max(-1)[0] if op == "max" else v.sum(-1) / (divisor or area)
    return out


def spatial_pool(ctx):
    n, op = ctx.choice("n", [2, 3]), ctx.choice("op", ["max", "avg"])
    x = fmap(ctx, n, lo=3)
    H = gridH(ctx, x.shape[2])
    one = lambda a, b: ctx.rng.randint(a, b)
    r = lambda a, b: tuple(one(a, b) for _ in range(n)) if ctx.rng.random() < 0.5 else (one(a, b),) * n
    ks = r(1, 3)
    st = r(1, 3) if ctx.flip("stride") else None
    pd = tuple(min(one(0, 1), k // 2) for k in ks)
    if ctx.flip("one-window", 0.15):  # that covers the whole input
        c = min(x.shape[3:])
        if ctx.rng.random() < 0.6:
            x = x[(...,) + (slice(c),) * n]
        ks = tuple(x.shape[3:])
        pd = (0,) * n if ctx.rng.random() < 0.7 else (1,) * n
    if ctx.flip("no-padding", 0.3):
        pd = (0,) * n
    ceil = ctx.flip("ceil", 0.3)
    kw = dict(ceil_mode=ceil)
    dil = (1,) * n
    if op == "avg":
        kw["count_include_pad"] = ctx.flip("count_pad")
        if ctx.flip("divisor", 0.2):
            kw["divisor_override"] = 3
    else:
        dil = tuple(one(1, 2) if (x.shape[3 + a] + 2 * pd[a]) > 2 * (ks[a] - 1) else 1 for a in range(n))
        kw["dilation"] = dil
    if any(x.shape[3 + a] + 2 * pd[a] < dil[a] * (ks[a] - 1) + 1 for a in range(n)):
        dil = (1,) * n
        kw.pop("dilation", None)
    ctx.describe(kernel=list(ks), strides=list(st or ks), pad=list(pd), dil=list(dil))
    cls = getattr(gnn, f"G{'Max' if op == 'max' else 'Avg'}SpatialPool{n}d")
    form = lambda v: v if v is None or len(set(v)) > 1 or ctx.rng.random() < 0.4 else v[0]  # a number or a tuple
    if "dilation" in kw:
        kw["dilation"] = form(dil)
    m = cls(form(ks), stride=form(st), padding=form(pd), **kw)
    y = out2(ctx, cls.__name__, ctx.call(cls.__name__, m, x, H), H)
    want = window(x, ks, st or ks, pd, dil, n, op, kw.get("count_include_pad", True), ceil, kw.get("divisor_override"))
    ctx.close(f"spatial-{op}-pool-{n}d", y, want, tol(x))
    grads(ctx, y, want, x)


def adaptive_pool(ctx):
    n, op = ctx.choice("n", [2, 3]), ctx.choice("op", ["max", "avg"])
    x = fmap(ctx, n)
    H = gridH(ctx, x.shape[2])
    o = tuple(ctx.rng.choice([1, 1, 2, 3, 5, None]) for _ in range(n))
    if ctx.flip("scalar"):
        o = (o[0] or 1,) * n
    if ctx.flip("own-size", 0.25):  # the sizes of the input, in any order
        o = ctx.rng.sample([int(v) for v in x.shape[3:]], n)
        o = tuple(o[::-1] if o == list(x.shape[3:]) and ctx.rng.random() < 0.5 else o)
    ctx.describe(out=list(o))
    cls = getattr(gnn, f"GAdaptive{'Max' if op == 'max' else 'Avg'}SpatialPool{n}d")
    # (a bare None is not an output size torch accepts: None only stands inside a tuple)
    m = cls(o if len(set(o)) > 1 or o[0] is None or ctx.rng.random() < 0.5 else o[0])
    y = out2(ctx, cls.__name__, ctx.call(cls.__name__, m, x, H), H)
    want = x.to(D)
    osz = [v or x.shape[3 + a] for a, v in enumerate(o)]
    ref = torch.empty(*x.shape[:3], *osz, dtype=D)
    for pos in itertools.product(*[range(v) for v in osz]):
        v = want
        for a, i in enumerate(pos):
            L = x.shape[3 + a]
            lo, hi = (i * L) // osz[a], -(-((i + 1) * L) // osz[a])
            v = v.narrow(3 + a, lo, hi - lo)
        v = v.flatten(3)
        ref[(...,) + pos] = v.max(-1)[0] if op == "max" else v.mean(-1)
    ctx.close(f"adaptive-{op}-pool-{n}d", y, ref, tol(x))
    grads(ctx, y, ref, x)


def group_pool(ctx):
    n = ctx.choice("n", [0, 1, 2, 2, 3, 3, 4])
    op = ctx.choice("op", ["Max", "Avg"])
    where = ctx.choice("over", ["Group", "Global"])
    x = fmap(ctx, n)
    cls = getattr(gnn, f"G{op}{where}Pool")
    m = cls()
    H = gridH(ctx, x.shape[2])
    if ctx.flip("elements"):  # real group elements of any family
        H = L.rand_H(ctx, ctx.rng.choice(list(L.FAM)), x.shape[2])
    args = (x,) if ctx.flip("without-grid") else (x, H)
    y = ctx.call(cls.__name__, m, *args)
    ctx.check("returns-a-tensor", isinstance(y, torch.Tensor), f"{type(y)}")
    X = x.to(D)
    if where == "Group":
        acc = X[:, :, 0].clone()
        for i in range(1, X.shape[2]):
            acc = torch.maximum(acc, X[:, :, i]) if op == "Max" else acc + X[:, :, i]
        want = acc if op == "Max" else acc / X.shape[2]
    else:
        v = X.reshape(*X.shape[:2], -1)
        want = v.sort(-1)[0][..., -1:] if op == "Max" else v.sum(-1, keepdim=True) / v.shape[-1]
    ctx.close(f"{where.lower()}-{op.lower()}-pool", y, want, tol(x))
    grads(ctx, y, want, x)
    # invariant under relabelling of the group axis
    p = torch.randperm(x.shape[2])
    ctx.close("pool-ignores-group-order", ctx.call(cls.__name__, m, x[:, :, p]), y, tol(x))


def norm(ctx):
    """per channel statistics over batch, group and space (batch norm) or group and space (instance norm)"""
    n = ctx.choice("n", [2, 3])
    kind = ctx.choice("norm", ["Batch", "Instance"])
    x = fmap(ctx, n, lo=2)
    C = x.shape[1]
    cls = getattr(gnn, f"G{kind}Norm{n}d")
    affine = ctx.flip("affine")
    track = ctx.flip("track")
    mom = ctx.choice("momentum", [0.1, 0.5, 1.0] + ([None] if kind == "Batch" else []))
    eps = ctx.choice("eps", [1e-5, 1e-3, 0.3])
    seen = 0
    m = cls(C, eps=eps, momentum=mom, affine=affine, track_running_stats=track).to(x.dtype)
    if affine:
        with torch.no_grad():
            m.weight.copy_(torch.randn(C))
            m.bias.copy_(torch.randn(C))
    H = gridH(ctx, x.shape[2])
    X = x.to(D)
    rm, rv = torch.zeros(C, dtype=D), torch.ones(C, dtype=D)
    w = (m.weight.detach().to(D) if affine else torch.ones(C, dtype=D)).view(1, C, *(1,) * (n + 1))
    b = (m.bias.detach().to(D) if affine else torch.zeros(C, dtype=D)).view(1, C, *(1,) * (n + 1))
    for step in range(ctx.randint("steps", 1, 3)):
        train = ctx.rng.random() < 0.6
        m.train(train)
        y = out2(ctx, cls.__name__, ctx.call(cls.__name__, m, x, H, may_mutate=False), H)
        axes = ([0] if kind == "Batch" else []) + list(range(2, n + 3))
        cnt = 1
        for a in axes:
            cnt *= X.shape[a]
        mean = X.mean(axes, keepdim=True)
        var = ((X - mean) ** 2).mean(axes, keepdim=True)
        if train and track:
            seen += 1
            f = 1 / seen if mom is None else mom  # None: cumulative average
            rm = ((1 - f) * rm + f * mean.mean(0).flatten()).detach()
            rv = ((1 - f) * rv + f * (var * cnt / (cnt - 1)).mean(0).flatten()).detach()
        if not train and track:
            mean, var = (v.view(1, C, *(1,) * (n + 1)) for v in (rm, rv))
        want = (X - mean) / torch.sqrt(var + eps) * w + b
        s = max(1.0, X.abs().max().item()) / min(1.0, var.min().add(eps).sqrt().item())
        ctx.close(f"{kind.lower()}-norm-{n}d", y, want, (1e-10 if x.dtype == D else 3e-5) * s * 3)
        if x.is_contiguous():  # torch's own normalisation differentiates some strided inputs wrongly
            grads(ctx, y, want, x)
        if track:
            q = (1e-10 if x.dtype == D else 1e-4)
            ctx.close("running-mean", m.running_mean, rm, q * max(1.0, X.abs().max().item()))
            ctx.close("running-var", m.running_var, rv, q * max(1.0, (X**2).max().item()))
        x = (x * 1.5 + 0.25).detach().requires_grad_(x.requires_grad)
        X = x.to(D)
    p = torch.randperm(x.shape[2])
    m.eval()
    a = ctx.call(cls.__name__, m, x, H)[0]
    b2 = ctx.call(cls.__name__, m, x[:, :, p], H)[0]
    ctx.close("norm-commutes-with-group-order", b2, a[:, :, p], tol(a) * 100)


def layer_norm(ctx):
    n = ctx.choice("n", [1, 2, 3])
    x = fmap(ctx, n, lo=2)
    k = ctx.choice("axes", list(range(1, x.ndim + 1)))
    shape = tuple(x.shape[-k:])
    affine = ctx.flip("affine")
    eps = ctx.choice("eps", [1e-5, 1e-5, 1e-2, 0.5])
    bias = ctx.flip("bias")
    m = gnn.GLayerNorm(shape if k > 1 or ctx.flip("tuple") else shape[0], eps=eps, elementwise_affine=affine, bias=bias).to(x.dtype)
    w, b = torch.ones(shape, dtype=D), torch.zeros(shape, dtype=D)
    if affine:
        with torch.no_grad():
            m.weight.copy_(torch.randn(shape))
            if bias:
                m.bias.copy_(torch.randn(shape))
        w = m.weight.detach().to(D)
        b = m.bias.detach().to(D) if bias else b
    H = gridH(ctx, x.shape[2])
    y = out2(ctx, "GLayerNorm", ctx.call("GLayerNorm", m, x, H), H)
    X = x.to(D)
    ax = list(range(x.ndim - k, x.ndim))
    mean = X.mean(ax, keepdim=True)
    var = ((X - mean) ** 2).mean(ax, keepdim=True)
    want = (X - mean) / torch.sqrt(var + eps) * w + b
    s = max(1.0, X.abs().max().item()) / min(1.0, var.min().add(eps).sqrt().item())
    ctx.close("layer-norm", y, want, (1e-10 if x.dtype == D else 3e-5) * s * 3)
    grads(ctx, y, want, x)


class Widen(nn.Module):
    def forward(self, x):
        return x.double() * (1 + 1e-9)


class Compare(nn.Module):
    def forward(self, x):
        return x > 0


def activation(ctx):
    n = ctx.choice("n", [1, 2, 3])
    x = fmap(ctx, n)
    H = gridH(ctx, x.shape[2])
    X = x.to(D)
    name = ctx.choice("module", ["GReLU", "GGELU", "GLeakyReLU", "GWrap"])
    if name == "GReLU":
        m, want = gnn.GReLU(), X.clamp(min=0)
    elif name == "GGELU":
        if ctx.flip("tanh"):
            m = gnn.GGELU(approximate="tanh")
            want = 0.5 * X * (1 + torch.tanh((2 / torch.pi) ** 0.5 * (X + 0.044715 * X**3)))
        else:
            m, want = gnn.GGELU(), X * 0.5 * (1 + torch.erf(X / 2**0.5))
    elif name == "GLeakyReLU":
        a = ctx.rng.choice([0.01, 0.2, 1.5, 0.0, -0.5])
        m, want = gnn.GLeakyReLU(a), torch.where(X >= 0, X, a * X)
    else:
        inner = ctx.choice("inner", ["sigmoid", "conv", "identity", "dropout", "widen", "compare", "scale"])
        C = x.shape[1]
        if inner == "conv":
            lin = nn.Linear(x.shape[-1], 3).to(x.dtype)
            m, want = gnn.GWrap(lin), X @ lin.weight.detach().to(D).T + lin.bias.detach().to(D)
            ctx.check("wrap-registers-parameters", {id(p) for p in m.parameters()} == {id(p) for p in lin.parameters()})
            ctx.check("wrap-registers-parameters", any(k.endswith("weight") for k in m.state_dict()))
        elif inner == "sigmoid":
            m, want = gnn.GWrap(nn.Sigmoid()), torch.sigmoid(X)
        elif inner == "widen":  # whatever the wrapped module returns is passed on
            m, want = gnn.GWrap(Widen()), X * (1 + 1e-9)
        elif inner == "compare":
            m = gnn.GWrap(Compare())
            y = out2(ctx, name, ctx.call(name, m, x, H), H)
            ctx.same("wrap-passes-on", y, x > 0)
            return
        elif inner == "scale":
            sc = nn.Conv3d(C, C, 1, groups=C).to(x.dtype) if x.ndim == 5 else nn.PReLU(C).to(x.dtype)
            m = gnn.GWrap(sc)
            want = copy.deepcopy(sc).to(D)(X)
        elif inner == "dropout":
            m, want = gnn.GWrap(nn.Dropout(0.9)), X
            m.eval()
        else:
            m, want = gnn.GWrap(nn.Identity()), X
    m.train(m.training and ctx.rng.random() < 0.5)
    y = out2(ctx, name, ctx.call(name, m, x, H), H)
    ctx.close("elementwise:" + name, y, want, tol(x) * 10)
    grads(ctx, y, want, x)


FAMILIES = [
    Family("spatial-pool", spatial_pool, 260, 5000),
    Family("adaptive-pool", adaptive_pool, 160, 3000),
    Family("group-pool", group_pool, 240, 4000),
    Family("norm", norm, 260, 5000),
    Family("layer-norm", layer_norm, 100, 1500),
    Family("activation", activation, 300, 4500),
]
