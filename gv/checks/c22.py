"""C22 the generic framework with user-supplied groups"""
import itertools

import torch

import gconv.gnn.functional as gF
from gconv import gnn
from gconv.gnn.kernels import GKernel, GLiftingKernel, GSeparableKernel, GSubgroupKernel, GSubgroupKernelSO3
from gv import layers as L, refs
from gv.core import Family
from gv.groups import rot3
from gv.refs import D

PROPERTY = "C22"


class Log:
    """what the plugged-in group functions were asked to do"""

    def __init__(self):
        self.calls = {}

    def hit(self, k):
        self.calls[k] = self.calls.get(k, 0) + 1


def d4():
    out = []
    for q in L.C4:
        out += [q, q @ torch.tensor([[1.0, 0], [0, -1]], dtype=D)]
    return torch.stack(out)


def oh():
    R = refs.octahedral_matrices()
    return torch.cat((R, -R))


class Group:
    """a user's group: elements (N, *shape), all operations written by the harness"""

    def __init__(self, ctx, name, n):
        self.name, self.n, self.log = name, n, Log()
        self.ctx = ctx
        self.layout, self.own, self.slope = "contiguous", False, 0.3

    def lay(self, t):
        """the memory layout of what a user's function returns is the user's business"""
        if self.layout == "reversed":
            return t.permute(*reversed(range(t.ndim))).contiguous().permute(*reversed(range(t.ndim)))
        if self.layout == "strided":
            return torch.stack((t, torch.full_like(t, torch.nan)), -1)[..., 0]
        return t

    def rand(self, m):
        if self.name == "scale":
            return torch.exp(torch.rand(m, 1, dtype=D) * 1.4 - 0.7)
        if self.name == "finite":
            G = d4() if self.n == 2 else oh()
            return G[torch.randint(len(G), (m,))]
        A = torch.eye(self.n, dtype=D) + 0.5 * torch.randn(m, self.n, self.n, dtype=D)
        bad = torch.linalg.det(A).abs() < 0.2
        A[bad] = torch.eye(self.n, dtype=D)
        return A

    def inv(self, h):
        self.log.hit("inverse")
        return self.lay(1 / h if self.name == "scale" else torch.linalg.inv(h))

    def mulpair(self, a, b):
        self.log.hit("product")
        return self.lay(a[:, None] * b[None] if self.name == "scale" else a[:, None] @ b[None])

    def mat(self, h):
        return h[..., None] * torch.eye(self.n, dtype=h.dtype) if self.name == "scale" else h

    def act(self, h, grid):
        self.log.hit("action")
        return self.lay(torch.einsum("hab,...b->h...a", self.mat(h), grid))

    def det(self, h):
        self.log.hit("determinant")
        return self.lay(torch.linalg.det(self.mat(h))[:, None])

    def feat(self, h):
        return torch.log(h) if self.name == "scale" else h.flatten(1)

    def sample(self, nodes, signal, grid, width=1.0, gain=1.0):
        """distance-weighted average in a faithful feature space, scaled by `gain`"""
        self.log.hit("sample")
        d = torch.cdist(self.feat(nodes), self.feat(grid))
        return self.lay(gain * torch.softmax(-d / width, -1) @ signal)

    def sample_points(self, *args, **kw):
        return self.lay(gF.grid_sample(*args, **kw))

    def sample_own(self, weight, points, slope=0.3):
        """a sampler that, unlike torch's, sees where points far outside the reference cube are"""
        self.log.hit("own-sampler")
        assert weight.shape[2:] == points.shape[1:-1] and len(weight) == len(points), (weight.shape, points.shape)
        c = torch.arange(1, self.n + 1, dtype=points.dtype)
        return self.lay(weight * (1 + slope * (points @ c))[:, None] + 0.1 * weight.flip(-1) * points.square().sum(-1)[:, None])

    def reference(self, weight, points):
        return self.sample_own(weight, points, self.slope) if self.own else refs.spatial_sample(weight, points)


def kernels(ctx, kind, G, cin, cout, k, groups, n_ref, use_det, use_mask):
    n = G.n
    kw = dict(in_channels=cin, out_channels=cout, kernel_size=(k,) * n, group_kernel_size=(n_ref,), grid_H=G.rand(n_ref),
              groups=groups, inverse_H=G.inv)
    if kind != "sub":
        if isinstance(k, tuple):  # the user's own reference points and mask, a different extent per axis
            kw["kernel_size"] = k
            grid = torch.rand(*k, n, dtype=D) * 2.6 - 1.3
            mask = torch.rand(*k, dtype=D) if use_mask else None
        else:
            grid = gF.create_grid_R2(k) if n == 2 else gF.create_grid_R3(k)
            mask = (gF.create_spherical_mask_R2(k) if n == 2 else gF.create_spherical_mask_R3(k)) if use_mask else None
        kw.update(grid_Rn=grid.double(), mask=mask, det_H=G.det if use_det else None, left_apply_to_Rn=G.act,
                  sample_Rn=G.sample_own if G.own else G.sample_points,
                  sample_Rn_kwargs=dict(slope=G.slope) if G.own else dict(mode="bilinear", padding_mode="border", align_corners=False))
    if kind != "lift":
        kw.update(left_apply_to_H=G.mulpair, sample_H=G.sample, sample_H_kwargs=dict(width=G.width, gain=G.gain))
    if kind == "sub":
        kw["kernel_size"] = (1,) * n
    return {"lift": GLiftingKernel, "sep": GSeparableKernel, "conv": GKernel, "sub": GSubgroupKernel}[kind](**kw).double()


def model(G, kern, kind, cin, cout, k, groups, hi, ho, use_det, use_mask):
    n, cg, ks = G.n, cin // groups, L.rep(k, G.n)
    with torch.no_grad():
        inv = torch.linalg.inv(G.mat(ho))
        own = isinstance(k, tuple) and kind != "sub"
        p = torch.einsum("hab,...b->h...a", inv, G.points if own else refs.coords(ks[0], n))
        no = len(ho)
        det = torch.linalg.det(G.mat(ho)).abs() if use_det else torch.ones(no, dtype=D)
        ball = torch.ones(ks, dtype=D)
        if use_mask:
            ball = G.mask if own else refs.ball_mask(ks[0], n)
        post = lambda w, ax: w * ball / det.view([-1 if a == ax else 1 for a in range(w.ndim)])
        if kind != "lift":
            rel = torch.stack([torch.stack([(a * b) if G.name == "scale" else a @ b for b in hi]) for a in (1 / ho if G.name == "scale" else inv)])
            phi = G.sample(rel.flatten(0, 1), torch.eye(len(kern.grid_H), dtype=D), kern.grid_H, G.width, G.gain)
            ni, nr = len(hi), len(kern.grid_H)
        if kind == "lift":
            w = G.reference(kern.weight.reshape(1, cout * cg, *ks).expand(no, -1, *ks), p).view(no, cout, cg, *ks)
            return post(w.transpose(0, 1), 1)
        if kind == "conv":
            T = (phi @ kern.weight.reshape(nr, -1)).view(no * ni, cg * cout, *ks)
            w = G.reference(T, p.repeat_interleave(ni, 0)).view(no, ni, cg, cout, *ks)
            return post(w.permute(3, 0, 2, 1, *range(4, 4 + n)), 1)
        WH = (phi @ (kern.weight if kind == "sub" else kern.weight_H).reshape(nr, -1)).view(no, ni, cg, cout, *(1,) * n).permute(3, 0, 2, 1, *range(4, 4 + n))
        if kind == "sub":
            return WH
        w = G.reference(kern.weight[:, 0][None].expand(no, cout, *ks), p).transpose(0, 1)[:, :, None]
        return WH, post(w, 1)


def setup(ctx, **over):
    kind = over.get("kind") or ctx.choice("kind", ["lift", "sep", "conv", "sub"])
    n = over.get("n") or ctx.choice("n", [2, 3])
    G = Group(ctx, over.get("name") or ctx.choice("group", ["scale", "finite", "affine"]), n)
    G.layout = ctx.choice("layout", ["contiguous", "contiguous", "reversed", "strided"])
    G.width, G.gain = ctx.choice("width", [0.3, 1.0]), ctx.choice("gain", [1.0, 2.5])
    if over.get("name") is None and ctx.flip("own-sampler", 0.4):
        G.own, G.slope = True, ctx.choice("slope", [0.3, -1.7])
    k = ctx.choice("k", [1, 3, 4] if n == 2 else [1, 3])
    if over.get("name") is None and kind != "sub" and ctx.flip("own-points", 0.4):
        k = tuple(ctx.rng.randint(1, 4) for _ in range(n))
        ctx.describe(k=k)
    groups = ctx.choice("groups", [1, 2])
    cin, cout = groups * ctx.randint("cin/g", 1, 2), groups * ctx.randint("cout/g", 1, 2)
    use_det, use_mask = ctx.flip("det", 0.8), ctx.flip("mask")
    kern = kernels(ctx, kind, G, cin, cout, k, groups, ctx.randint("n_ref", 1, 6), use_det, use_mask)
    if isinstance(k, tuple):
        G.points = kern.grid_Rn.clone()
        G.mask = None if kern.mask is None else kern.mask.clone()
    with torch.no_grad():
        for p in kern.parameters():
            p.copy_(torch.randn_like(p))
    hi, ho = G.rand(ctx.size(1, 4)), G.rand(ctx.size(1, 4))
    if kind == "sub":
        k = 1
    return kind, n, G, k, groups, cin, cout, use_det, use_mask, kern, hi, ho


def formula(ctx):
    """K(h', h, p) = mask(p) . W(h'^-1 h, h'^-1 p) / |det h'| for any plugged-in group"""
    kind, n, G, k, groups, cin, cout, use_det, use_mask, kern, hi, ho = setup(ctx)
    got = ctx.call("kernel:" + kind, kern, *([ho] if kind == "lift" else [hi, ho]))
    for k_, c in G.log.calls.items():
        ctx.event("plugin:" + k_, c)
    want = model(G, kern, kind, cin, cout, k, groups, hi, ho, use_det, use_mask)
    for g, w in zip(got if kind == "sep" else [got], want if kind == "sep" else [want]):
        ctx.close(f"kernel-formula:{kind}:{G.name}", g, w, 2e-5 * max(1.0, w.abs().max().item()))


def layer(ctx):
    """the generic layers convolve with whatever kernel they are given"""
    kind, n, G, k, groups, cin, cout, use_det, use_mask, kern, hi, ho = setup(ctx)
    cls = getattr(gnn, {"lift": "GLiftingConv", "sep": "GSeparableConv", "conv": "GConv", "sub": "GConv"}[kind] + f"{n}d")
    bias = ctx.flip("bias")
    tup = ctx.flip("per-axis", 0.4)
    draw = lambda name, opts: tuple(ctx.rng.choice(opts) for _ in range(n)) if tup else ctx.rng.choice(opts)
    stride, pad, dil = draw("stride", [1, 2, 3]), draw("pad", [0, 1, 2]), draw("dilation", [1, 2])
    pmode = ctx.choice("padding_mode", ["zeros", "zeros", "reflect", "replicate", "circular"])
    if ctx.flip("string-padding", 0.25):
        pad = ctx.rng.choice(["same", "valid"])
        stride = 1 if pad == "same" else stride
    ctx.describe(stride=stride, pad=pad, dilation=dil)
    m = cls(cin, cout, k, len(kern.grid_H), kern, groups=groups, stride=stride, padding=pad, dilation=dil, padding_mode=pmode,
            bias=bias).double()
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn_like(p))
    s = L.Spec({"sub": "conv"}.get(kind, kind), "SE2" if n == 2 else "SE3", cin, cout, k, groups, stride, pad, dil, padding_mode=pmode, bias=bias)
    dims = [max(4, d * (k_ - 1) + 1, sum(p) + 1) + ctx.rng.randint(0, 1)
            for k_, d, p in zip(L.rep(k, n), L.rep(dil, n), refs.pad_amounts(pad, L.rep(k, n), L.rep(dil, n)))]
    x = torch.randn(2, cin, *(() if kind == "lift" else (len(hi),)), *dims, dtype=D)
    y, H = ctx.call("layer:" + kind, m, x, *([ho] if kind == "lift" else [hi, ho]))
    ctx.same("returned-grid", H, ho)
    want = L.apply(s, m, x, model(G, kern, kind, cin, cout, k, groups, hi, ho, use_det, use_mask), len(hi), len(ho))
    ctx.close(f"layer:{kind}:{G.name}", y, want, 2e-5 * max(1.0, want.abs().max().item()) * 4)


def equivariance(ctx):
    """a genuine reflection group (D4, Oh) through the generic layers: exactly equivariant"""
    kind, n, G, k, groups, cin, cout, use_det, use_mask, kern, hi, ho = setup(ctx, name="finite", kind=ctx.choice("kind", ["lift", "sep", "conv"]))
    cls = getattr(gnn, {"lift": "GLiftingConv", "sep": "GSeparableConv", "conv": "GConv"}[kind] + f"{n}d")
    m = cls(cin, cout, k, len(kern.grid_H), kern, groups=groups, padding=k // 2).double()
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn_like(p))
    x = torch.randn(1, cin, *(() if kind == "lift" else (len(hi),)), *(4,) * n, dtype=D)
    f = lambda x, a, b: ctx.call("layer:" + kind, m, x, *([b] if kind == "lift" else [a, b]))[0]
    if k == 4:
        ctx.trivial = True
        return
    y = f(x, hi, ho)
    mats = d4() if n == 2 else oh()
    for i in ctx.rng.sample(range(len(mats)), 3):
        g = mats[i]
        yg = f(L.img_act(g, x), g @ hi, g @ ho)
        ctx.close(f"equivariance-custom:{kind}{n}d", yg, L.img_act(g, y), 1e-9 * max(1.0, y.abs().max().item()))
        ctx.event("reflections" if torch.linalg.det(g) < 0 else "rotations")


def so3_subgroup_layer(ctx):
    """GConv3d over GSubgroupKernelSO3 is the pointwise group convolution"""
    groups = ctx.choice("groups", [1, 2])
    cin, cout, n = 2 * groups, groups * ctx.randint("cout", 1, 2), ctx.choice("n", [1, 4, 8])
    kern = GSubgroupKernelSO3(cin, cout, n, groups=groups, grid_H=L.spread_rotations(ctx, n).float())
    m = gnn.GConv3d(cin, cout, 1, n, kern, groups=groups, bias=ctx.flip("bias")).double()
    L.init(ctx, m)
    hi, ho = rot3(ctx, ctx.size(1, 4)), rot3(ctx, ctx.size(1, 4))
    x = torch.randn(2, cin, len(hi), 3, 2, 2, dtype=D)
    y, _ = ctx.call("layer:subgroupSO3", m, x, hi, ho)
    w = kern(hi, ho).detach()
    s = L.Spec("conv", "SE3", cin, cout, 1, groups)
    ctx.close("subgroup-layer", y, L.apply(s, m, x, w, len(hi), len(ho)), 1e-9 * max(1e-9, y.abs().max().item()) + 1e-12)
    # rotating both grids leaves the response alone: the layer acts on the group axis only
    g = rot3(ctx, 1)
    z, _ = ctx.call("layer:subgroupSO3", m, x, g @ hi, g @ ho)
    ctx.close("subgroup-layer-invariant", z, y, 2e-6 * max(1e-9, y.abs().max().item()) * 10)


FAMILIES = [
    Family("formula", formula, 300, 5000),
    Family("layer", layer, 200, 3500),
    Family("equivariance", equivariance, 140, 2500),
    Family("so3-subgroup-layer", so3_subgroup_layer, 80, 1200),
]
