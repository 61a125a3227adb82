"""C23 configurations outside the documented domain are rejected, those inside are accepted and work"""
import copy
import inspect
import math

import torch

from gconv import gnn
from gconv.gnn import kernels
from gconv.geometry import o2, o3, so2, so3
from gconv.geometry.groups import s2
from gv import layers as L
from gv import refs
from gv.core import Family
from gv.groups import GROUPS
from gv.refs import D

PROPERTY = "C23"


def out_size(s, dims):
    ks, st, di = (s.k,) * s.n, L.rep(s.stride, s.n), L.rep(s.dilation, s.n)
    pads = refs.pad_amounts(s.padding, ks, di)
    return tuple((d + sum(p) - e * (k - 1) - 1) // t + 1 for d, p, e, k, t in zip(dims, pads, di, ks, st))


def accepted(ctx):
    """every combination of documented options builds and maps a legal input to the documented shape"""
    s = L.spec(ctx)
    if s.E and s.grid is None and s.padding != "same" and ctx.flip("one-coset", 0.3):
        s.gk = ctx.rng.choice([(0, 2), (3, 0), (1, 0), (0, 1)])
    if ctx.flip("tuples", 0.3) and s.padding != "same":
        s.stride = tuple(ctx.rng.randint(1, 3) for _ in range(s.n))
        s.dilation = tuple(ctx.rng.randint(1, 2) for _ in range(s.n))
    m = L.build(s)
    ctx.describe(**s.brief())
    ni, no = ctx.rng.randint(1, 4), ctx.rng.randint(1, 4)
    hi, ho = L.rand_H(ctx, s.fam, ni).to(s.dtype), L.rand_H(ctx, s.fam, no).to(s.dtype)
    dims = L.spatial(ctx, s)
    N = ctx.rng.randint(1, 3)
    x = L.features(ctx, s, N, dims, ni)
    y, H = L.run(ctx, m, s, x, hi, ho)
    want = (N, s.cout, no) + out_size(s, dims)
    ctx.check("documented-output-shape", tuple(y.shape) == want, f"{tuple(y.shape)} instead of {want} for {dims}")
    ctx.check("documented-output-grid", tuple(H.shape) == tuple(ho.shape), f"{tuple(H.shape)}")
    # without an explicit output grid
    y, H = m(x) if s.kind == "lift" else m(x, hi)
    default = hi if s.kind != "lift" and not s.E else m.kernel.grid_H
    ctx.check("documented-default-grid", y.shape[2] == H.shape[0] == default.shape[0], f"{y.shape[2]} {H.shape[0]} {default.shape[0]}")
    ctx.check("documented-group-size", m.kernel.grid_H.shape[0] == L.size(s), f"{m.kernel.grid_H.shape[0]} instead of {L.size(s)}")
    gk, grid = m.kernel.group_kernel_size, m.kernel.grid_H
    gk = (gk,) if isinstance(gk, int) else tuple(gk)
    want = (int((grid[:, 0] > 0).sum()), int((grid[:, 0] < 0).sum())) if s.E else (len(grid),)
    ctx.check("kernel-size-follows-the-grid", gk == want, f"{gk} for a grid of {want}")
    for name, v in dict(in_channels=s.cin, out_channels=s.cout, groups=s.groups, padding_mode=s.padding_mode).items():
        ctx.check("attributes", getattr(m, name) == v, name)


def constructor(ctx):
    """one documented constraint is violated: building the layer fails, by ValueError where documented"""
    s = L.spec(ctx)
    L.build(s)
    ctx.event("legal-before-the-fault")
    fault = ctx.choice("fault", ["in_channels", "out_channels", "groups0", "groups-1", "padding-str", "padding-mode", "same-stride",
                                 "same-stride-partial"] + (["gk-negative", "gk-empty"] if s.E else []))
    exc = ValueError
    if fault == "in_channels":
        s.groups = ctx.rng.randint(2, 9)
        s.cout, s.cin = s.groups * ctx.rng.randint(1, 2), s.groups * ctx.rng.randint(0, 2) + ctx.rng.randint(1, s.groups - 1)
    elif fault == "out_channels":
        s.groups = ctx.rng.randint(2, 9)
        s.cin, s.cout = s.groups * ctx.rng.randint(1, 2), s.groups * ctx.rng.randint(0, 2) + ctx.rng.randint(1, s.groups - 1)
    elif fault == "groups0":
        s.groups, exc = 0, Exception
    elif fault == "groups-1":
        s.groups, exc = -ctx.rng.randint(1, 3), Exception
    elif fault == "padding-str":
        s.padding = ctx.rng.choice(["full", "Same", "reflect", "", "zeros"])
    elif fault == "padding-mode":
        s.padding_mode = ctx.rng.choice(["constant", "zero", "Reflect", "border", "", "same"])
    elif fault == "same-stride":
        s.padding, s.stride = "same", ctx.rng.randint(2, 4)
    elif fault == "same-stride-partial":
        st = [1] * s.n
        st[ctx.rng.randrange(s.n)] = ctx.rng.randint(2, 3)
        s.padding, s.stride = "same", tuple(st)
    elif fault == "gk-negative":
        s.grid, exc = None, Exception
        s.gk = ctx.rng.choice([(-1, 3), (3, -1), (-2, -2), (2, -4), (-4, 4)])
    else:
        s.grid, exc = None, Exception
        s.gk = (0, 0)
    ctx.describe(**s.brief())
    ctx.raises("rejected-at-construction", exc, L.build, s)


def options(ctx):
    """unknown sampling modes and grids parameterisations are refused, never silently replaced"""
    which = ctx.choice("which", ["group-mode", "spatial-mode", "spatial-padding", "conv-mode", "so3.grid_sample", "so2.grid_sample", "o2", "o3"])
    bad = ctx.choice("value", ["linear", "rfb", "gauss", "none", ""])
    if which in ("group-mode", "spatial-mode", "spatial-padding"):
        s = L.spec(ctx, kind=ctx.rng.choice(("sep", "conv")) if which == "group-mode" else None)
        setattr(s, {"group-mode": "gmode", "spatial-mode": "smode", "spatial-padding": "spad"}[which], bad)
        ctx.describe(**s.brief())
        hi, ho = (L.rand_H(ctx, s.fam, 2).to(s.dtype) for _ in range(2))

        def use():
            m = L.build(s)
            x = L.features(ctx, s, 1, L.spatial(ctx, s), 2)
            return L.run(ctx, m, s, x, hi, ho)

        ctx.raises("unknown-mode-rejected", Exception, use)
        return
    if which == "conv-mode":
        s = L.spec(ctx)
        good = L.build(s)
        base = gnn.modules.gconv.GroupConvNd
        ctx.raises("unknown-mode-rejected", Exception, base, s.cin, s.cout, (s.k,) * s.n, s.gk, good.kernel, s.groups,
                   (1,) * s.n, 0, (1,) * s.n, "zeros", ctx.rng.choice(["1d", "4d", "2D", ""]))
        return
    n = 5
    sig = torch.randn(n, 3, dtype=D)
    if which == "so3.grid_sample":
        g, q = (L.rand_H(ctx, "SE3", k) for k in (n, 4))
        f = so3.grid_sample
    elif which == "so2.grid_sample":
        g, q = (L.rand_H(ctx, "SE2", k) for k in (n, 4))
        f = so2.grid_sample
    else:
        fam, mod = ("E2", o2) if which == "o2" else ("E3", o3)
        g, q = L.ref_grid(ctx, fam, (3, 2)), L.rand_H(ctx, fam, 4)
        ctx.raises("unknown-mode-rejected", ValueError, mod.grid_sample, q, sig, g, (3, 2), mode=bad)
        return
    ctx.raises("unknown-mode-rejected", ValueError, f, q, sig, g, mode=bad)


def inputs(ctx):
    """an input whose channels do not belong to the layer is refused, not broadcast"""
    s = L.spec(ctx)
    m = L.build(s)
    ni = ctx.rng.randint(1, 4)
    hi, ho = L.rand_H(ctx, s.fam, ni).to(s.dtype), L.rand_H(ctx, s.fam, 2).to(s.dtype)
    dims = L.spatial(ctx, s)
    fault = ctx.choice("fault", ["more-channels", "fewer-channels"] + (["more-elements", "fewer-elements", "swapped-axes", "same-product", "same-product"] if s.kind != "lift" else []))
    s2_ = copy.copy(s)
    nx = ni
    if fault == "more-channels":
        s2_.cin = s.cin + ctx.rng.randint(1, 3)
    elif fault == "fewer-channels":
        s2_.cin = max(s.cin - 1, 0) or s.cin + 1
    elif fault == "swapped-axes":  # group elements before channels
        if s.cin == ni:
            ni = s.cin + 1
            hi = L.rand_H(ctx, s.fam, ni).to(s.dtype)
        s2_.cin, nx = ni, s.cin
    elif fault == "same-product":  # as many planes in total, split differently
        splits = [c for c in range(1, s.cin * ni + 1) if s.cin * ni % c == 0 and c != s.cin]
        if not splits:
            ni = 2 * ni
            hi = L.rand_H(ctx, s.fam, ni).to(s.dtype)
            splits = [2 * s.cin]
        s2_.cin = ctx.rng.choice(splits)
        nx = s.cin * ni // s2_.cin
    elif fault == "more-elements":
        nx = ni + ctx.rng.randint(1, 3)
    else:
        nx = ni - 1 or 2
    ctx.describe(**s.brief())
    x = L.features(ctx, s2_, 1, dims, nx)
    ctx.raises("foreign-input-rejected", Exception, L.run, ctx, m, s, x, hi, ho)
    # and the layer still works afterwards
    L.run(ctx, m, s, L.features(ctx, s, 1, dims, ni), hi, ho)


def too_small(ctx):
    """a spatial extent the kernel does not fit into is refused"""
    s = L.spec(ctx, padding=0, padding_mode="zeros", k=3, dilation=ctx.rng.choice([1, 2]))
    m = L.build(s)
    ni = 2
    hi, ho = L.rand_H(ctx, s.fam, ni).to(s.dtype), L.rand_H(ctx, s.fam, 2).to(s.dtype)
    need = s.dilation * (s.k - 1) + 1
    dims = [need + ctx.rng.randint(0, 2) for _ in range(s.n)]
    L.run(ctx, m, s, L.features(ctx, s, 1, dims, ni), hi, ho)
    dims[ctx.rng.randrange(s.n)] = ctx.rng.randint(1, need - 1)
    ctx.describe(**s.brief(), dims=dims)
    ctx.raises("too-small-rejected", Exception, L.run, ctx, m, s, L.features(ctx, s, 1, dims, ni), hi, ho)


DEFAULTS = dict(groups=1, stride=1, padding=0, dilation=1, padding_mode="zeros", permute_output_grid=True, mask=True, bias=False, grid_H=None)


def defaults(ctx):
    """an omitted option means its documented default (for the convolution options that of an ordinary convolution)"""
    kind, fam = ctx.choice("kind", L.KINDS), ctx.choice("fam", tuple(L.FAM))
    E = fam in ("E2", "E3")
    base = dict(DEFAULTS)
    if kind == "lift":
        base.update(sampling_mode="bilinear", sampling_padding_mode="border")
    else:
        base.update(group_sampling_mode="rbf", spatial_sampling_mode="bilinear", spatial_sampling_padding_mode="border")
        base.update(dict(group_rotation_sampling_width=0.0, group_reflection_sampling_width=0.0) if E else dict(group_sampling_width=0.0))
    given = dict(groups=2, stride=ctx.rng.choice([2, 3]), padding=ctx.rng.choice([1, "valid"]), dilation=2, padding_mode=ctx.rng.choice(["circular", "replicate"]),
                 mask=False, bias=True, permute_output_grid=False)
    given = {k: v for k, v in given.items() if ctx.rng.random() < 0.25}
    if E and kind != "lift":
        given["group_kernel_size"] = ctx.rng.choice([2, (1, 3), (4, 2)])
    elif ctx.rng.random() < 0.3:
        given["group_kernel_size"] = (3, 2) if E else 6
    else:
        base["group_kernel_size"] = (4, 4) if E else 4
    ctx.describe(given=sorted(given))
    cls = L.CLS[kind, fam]
    seed = ctx.rng.randrange(2**31)
    torch.manual_seed(seed)
    a = cls(2, 4, 3, **given)
    torch.manual_seed(seed)
    b = cls(2, 4, 3, **{**base, **given})
    sa, sb = a.state_dict(), b.state_dict()
    ctx.check("omitted-options-are-the-defaults", sorted(sa) == sorted(sb), f"{sorted(sa)} vs {sorted(sb)}")
    for k in sa:
        ctx.close("omitted-options-same-state", sa[k], sb[k], 1e-6, 1e-5)
    ni = ctx.rng.randint(1, 3)
    n = L.DIM[fam]
    s = L.Spec(kind, fam, cin=2, dtype=torch.float32)
    x = L.features(ctx, s, 1, (7,) * n, ni)
    args = (x,) if kind == "lift" else (x, L.rand_H(ctx, fam, ni).float())
    seed += 1
    torch.manual_seed(seed)
    ya, Ha = a(*args)
    torch.manual_seed(seed)
    yb, Hb = b(*args)
    ctx.close("omitted-options-same-grid", Ha, Hb, 1e-6)
    ctx.close("omitted-options-same-response", ya, yb, 1e-4 * (1 + yb.abs().max().item()))
    ctx.check("randomised-unless-told-otherwise", torch.equal(a(*args)[1], Ha) == ("permute_output_grid" in given))
    # the kernels by themselves
    kc = getattr(kernels, {"lift": "GLiftingKernel", "sep": "GSeparableKernel", "conv": "GKernel"}[kind] + fam)
    gk = (2, 3) if E else 5
    full = {k: v for k, v in base.items() if k in inspect.signature(kc.__init__).parameters and k != "group_kernel_size"}
    some = {k: v for k, v in given.items() if k in ("mask", "groups")}
    res = []
    for kw in (some, {**full, **some}):
        torch.manual_seed(seed)
        ker = kc(2, 4, 3, gk, **kw)
        torch.manual_seed(seed)
        hi, ho = (GROUPS[L.FAM[fam]].rand(ctx, j, "haar").float() for j in (2, 3))
        r = ker(ho) if kind == "lift" else ker(hi, ho)
        res.append([r] if isinstance(r, torch.Tensor) else list(r))
    for u, v in zip(*res):
        ctx.close("omitted-options-kernel", u, v, 1e-4 * (1 + v.abs().max().item()))
    # the generic layers around the same kernel
    name = {"lift": "GLiftingConv", "sep": "GSeparableConv", "conv": "GConv"}[kind] + f"{n}d"
    full = dict(groups=1, stride=1, padding=0, dilation=1, padding_mode="zeros", bias=False)
    some = {k: v for k, v in given.items() if k in full and k != "groups"}
    ker = cls(2, 4, 3, **{k: v for k, v in given.items() if k in ("mask", "group_kernel_size")}).kernel
    out = L.rand_H(ctx, fam, 2).float()
    res = []
    for kw in (some, {**full, **some}):
        torch.manual_seed(seed)
        g = getattr(gnn, name)(2, 4, (3,) * n, ker.grid_H.shape[0], ker, **kw)
        if g.bias is not None:
            with torch.no_grad():
                g.bias.fill_(0.5)
        res.append((g(x, out) if kind == "lift" else g(*args, out))[0])
    ctx.close("omitted-options-generic", *res, 1e-4 * (1 + res[1].abs().max().item()))


def generic(ctx):
    """the generic layers validate what they are given themselves, whatever kernel they are built around"""
    kind, n = ctx.choice("kind", L.KINDS), ctx.choice("n", [2, 3])
    fam = ctx.rng.choice(["SE2", "E2"] if n == 2 else ["SE3", "E3"])
    cls = getattr(gnn, {"lift": "GLiftingConv", "sep": "GSeparableConv", "conv": "GConv"}[kind] + f"{n}d")
    ker = L.CLS[kind, fam](12, 12, 3, group_kernel_size=(2, 3) if fam[0] == "E" else 4).kernel
    per_axis = ctx.flip("per-axis")
    opt = lambda *v: tuple(ctx.rng.choice(v) for _ in range(n)) if per_axis else ctx.rng.choice(v)
    gk = ctx.choice("group-size", [3, (4, 4), (2, 0), (0, 1), (7,), (1, 2, 3)])
    good = dict(groups=1, stride=opt(1, 2), padding=ctx.choice("pad", [0, 1, (1,) * n, "valid"]), dilation=opt(1, 2),
                padding_mode=ctx.rng.choice(["zeros", "reflect", "replicate", "circular"]), bias=ctx.flip("bias"))
    args = [12, 12, ctx.rng.choice([3, (3,) * n]), gk, ker]
    cls(*args, **good)  # every documented form is accepted
    ctx.event("legal-before-the-fault")
    fault = ctx.choice("fault", ["in_channels", "out_channels", "groups", "padding", "padding_mode", "same-stride", "gk-sign", "gk-sign", "gk-sum"])
    if fault in ("in_channels", "out_channels"):
        good["groups"] = ctx.rng.choice([2, 3, 4, 6])
        args[fault == "out_channels"] = ctx.rng.choice([c for c in range(1, 24) if c % good["groups"]])
    elif fault == "groups":
        good["groups"] = ctx.rng.choice([0, -1, -2, -3, -12])
    elif fault == "padding":
        good["padding"] = ctx.rng.choice(["full", "Same", "VALID", "", "zeros", "same "])
    elif fault == "padding_mode":
        good["padding_mode"] = ctx.rng.choice(["constant", "Zeros", "border", "", "same", "wrap"])
    elif fault == "same-stride":
        st = [1] * n
        st[ctx.rng.randrange(n)] = ctx.rng.randint(2, 4)
        good["padding"], good["stride"] = "same", tuple(st) if ctx.rng.random() < 0.7 else 2
    elif fault == "gk-sign":
        v = [ctx.rng.randint(1, 9) for _ in range(ctx.rng.choice([2, 2, 3]))]
        v[ctx.rng.randrange(len(v))] = -ctx.rng.randint(1, 3)
        args[3] = tuple(v)
    else:
        args[3] = ctx.rng.choice([(0,), (0, 0), (0, 0, 0)])
    ctx.describe(args=str(args[:4]), given=str(good))
    ctx.raises("generic-rejected-at-construction", ValueError, cls, *args, **good)


FAMILIES = [
    Family("generic", generic, 200, 3000),
    Family("defaults", defaults, 60, 900),
    Family("accepted", accepted, 400, 8000),
    Family("constructor", constructor, 400, 6000),
    Family("options", options, 160, 2500),
    Family("inputs", inputs, 200, 3000),
    Family("too_small", too_small, 100, 1500),
]
