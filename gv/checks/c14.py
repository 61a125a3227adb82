"""C14 a layer is the convolution of its input with its sampled kernel"""
import torch

from gconv import gnn
from gv import layers as L, refs
from gv.core import Family
from gv.refs import D

PROPERTY = "C14"


def setup(ctx, **over):
    for _ in range(20):
        s = L.spec(ctx, **over)
        n = s.n
        # the full convolution arithmetic: anisotropic stride, padding and dilation
        if ctx.rng.random() < 0.5:
            s.stride = tuple(ctx.rng.randint(1, 3) for _ in range(n))
        if ctx.rng.random() < 0.4:
            s.dilation = tuple(ctx.rng.choice([1, 1, 2, 2, 3]) for _ in range(n))
        if ctx.rng.random() < 0.5:
            s.padding = tuple(ctx.rng.randint(0, 2) for _ in range(n))
        if s.padding == "same":
            s.stride = 1
        if ctx.rng.random() < 0.5:
            s.smode, s.gmode = "bilinear", "rbf"
        m = L.build(s)
        L.init(ctx, m)
        hi, ho = (L.rand_H(ctx, s.fam, ctx.size(1, 4, what=w)).to(s.dtype) for w in ("in_H", "out_H"))
        if ctx.rng.random() < 0.15:
            ho = hi  # one object for both
        dims = L.spatial(ctx, s)
        if max(dims) < 14 or ctx.vast:
            break
    x = L.features(ctx, s, ctx.size(1, 3, 12, what="N"), dims, len(hi))
    ctx.describe(**s.brief(), n_in=len(hi), n_out=len(ho), dims=dims, N=len(x))
    return s, m, hi, ho, x


def tol(s, y):
    return max(y.abs().max().item(), 1e-12) * (1e-10 if s.dtype == D else 1e-4)


def reference(ctx):
    """stride, padding, dilation, padding mode, groups and bias as in an ordinary convolution"""
    s, m, hi, ho, x = setup(ctx, dtype=torch.float32 if ctx.rng.random() < 0.2 else D)
    kern = L.run_kernel(ctx, m, s, hi, ho)
    y, H = L.run(ctx, m, s, x, hi, ho)
    want = L.apply(s, m, x, kern, len(hi), len(ho))
    ctx.check("output-dtype", y.dtype == s.dtype, str(y.dtype))
    ctx.close(f"convolution:{s.kind}{s.fam}", y, want, tol(s, want))
    ctx.same("returned-grid", H, ho)
    ctx.event("responses", y.numel())


def endtoend(ctx):
    """parameters to output against the float64 model of the whole layer"""
    s, m, hi, ho, x = setup(ctx)
    try:
        kern = L.kernel(s, m, hi, ho)
    except L.Ambiguous:
        ctx.trivial = True
        return
    y, _ = L.run(ctx, m, s, x, hi, ho)
    want = L.apply(s, m, x, kern, len(hi), len(ho))
    mags = [p.abs().max().item() for p in m.parameters()]
    scale = 1.0
    for p in m.kernel.parameters():
        scale *= max(p.abs().max().item(), 1e-12)
    terms = s.cin * len(hi) * s.k**s.n
    t = (1e-6 if s.kind == "lift" else 1e-4 * getattr(s, "cond", 1.0)) * scale * x.abs().max().item() * terms
    ctx.close(f"layer-model:{s.kind}{s.fam}", y, want, t + 1e-9 * max(mags))


def default_grids(ctx):
    """omitted grids: lifting and E(n) use the reference grid, SE(n) the input grid"""
    s = L.spec(ctx, padding=1, stride=1, padding_mode="zeros", dilation=1)
    m = L.build(s)
    L.init(ctx, m)
    hi = L.rand_H(ctx, s.fam, ctx.size(1, 4, what="in_H")).to(s.dtype)
    x = L.features(ctx, s, 1, L.spatial(ctx, s, lo=3), len(hi))
    ctx.describe(**s.brief(), n_in=len(hi))
    if s.kind == "lift":
        y, H = ctx.call("forward:default", m, x)
        ho = m.kernel.grid_H
    else:
        y, H = ctx.call("forward:default", m, x, hi)
        ho = m.kernel.grid_H if s.E else hi
    ctx.same("default-output-grid", H, ho)
    z, _ = L.run(ctx, m, s, x, hi, ho.clone())
    ctx.equal("default-output", y, z)


def superposition(ctx):
    """linear in the input, affine with the bias; the bias is one number per output channel"""
    s, m, hi, ho, x = setup(ctx)
    x2 = L.features(ctx, s, len(x), x.shape[x.ndim - s.n :], len(hi))
    a, b = ctx.rng.uniform(-3, 3), ctx.rng.uniform(-3, 3)
    f = lambda v: L.run(ctx, m, s, v, hi, ho)[0]
    y0, y1, y2 = f(torch.zeros_like(x)), f(x), f(x2)
    t = tol(s, y1) + tol(s, y2) + tol(s, y0)
    bias = m.bias.detach() if s.bias else torch.zeros(s.cout, dtype=D)
    ctx.close("zero-input-gives-the-bias", y0, bias.view(1, -1, *(1,) * (s.n + 1)).expand_as(y0), 1e-12)
    ctx.close("superposition", f(a * x + b * x2) - y0, a * (y1 - y0) + b * (y2 - y0), t * 20)


FAMILIES = [
    Family("reference", reference, 600, 12000),
    Family("endtoend", endtoend, 400, 8000),
    Family("default-grids", default_grids, 120, 2000),
    Family("superposition", superposition, 200, 4000),
]
