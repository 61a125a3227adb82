"""Random configurations of the 12 group convolution layers (and the SO3 subgroup kernel),
their float64 reference models and the action of the voxel symmetries on feature maps.
The reference models use the layer's parameters and buffers only as data."""
from __future__ import annotations

import copy
import inspect
import math
from dataclasses import asdict, dataclass, field

import torch
from torch import Tensor

from gconv import gnn
from gconv.geometry import o2, o3, so2, so3

from . import refs
from .core import Inconclusive
from .groups import GROUPS, rot2angles, rot3
from .refs import D, pi

FAM = {"SE2": "so2", "E2": "o2", "SE3": "so3", "E3": "o3"}
DIM = {"SE2": 2, "E2": 2, "SE3": 3, "E3": 3}
KINDS = ("lift", "sep", "conv")
CLS = {
    (k, f): getattr(gnn, {"lift": "GLiftingConv", "sep": "GSeparableConv", "conv": "GConv"}[k] + f)
    for k in KINDS
    for f in FAM
}


@dataclass
class Spec:
    kind: str
    fam: str
    cin: int = 2
    cout: int = 2
    k: int = 3
    groups: int = 1
    stride: object = 1
    padding: object = 0
    dilation: object = 1
    padding_mode: str = "zeros"
    gk: object = 4
    bias: bool = False
    mask: bool = True
    smode: str = "bilinear"
    spad: str = "border"
    gmode: str = "rbf"
    width: float = 0.0
    width2: float = 0.0
    permute: bool = False
    grid: object = None  # tensor or None
    dtype: object = D

    @property
    def n(self):
        return DIM[self.fam]

    @property
    def E(self):
        return self.fam in ("E2", "E3")

    def brief(self):
        d = asdict(self)
        d["grid"] = None if self.grid is None else f"given{tuple(self.grid.shape)}"
        d["dtype"] = str(self.dtype)[6:]
        return {k: (round(v, 4) if isinstance(v, float) else v) for k, v in d.items()}


def rep(v, n):
    return tuple(v) if isinstance(v, (tuple, list)) else (v,) * n


def construct(s: Spec):
    kw = dict(groups=s.groups, stride=s.stride, padding=s.padding, dilation=s.dilation, padding_mode=s.padding_mode,
              permute_output_grid=s.permute, mask=s.mask, bias=s.bias,
              grid_H=None if s.grid is None else s.grid.to(torch.get_default_dtype()))
    if s.kind == "lift":
        kw.update(group_kernel_size=s.gk, sampling_mode=s.smode, sampling_padding_mode=s.spad)
    else:
        kw.update(group_kernel_size=s.gk, group_sampling_mode=s.gmode, spatial_sampling_mode=s.smode,
                  spatial_sampling_padding_mode=s.spad)
        if s.E:
            kw.update(group_rotation_sampling_width=s.width, group_reflection_sampling_width=s.width2)
        else:
            kw.update(group_sampling_width=s.width)
    return CLS[s.kind, s.fam](s.cin, s.cout, s.k, **kw)


def build(s: Spec):
    return construct(s).to(s.dtype)


def size(s: Spec):
    """number of elements of the reference grid"""
    if s.grid is not None:
        return s.grid.shape[0]
    return sum(rep(s.gk, 2)) if s.E else s.gk


# ------------------------------------------------------------------- grids
def spread_rotations(ctx, n):
    """n rotation matrices that are well apart from each other"""
    best = None
    for _ in range(6):
        R = rot3(ctx, n, "haar")
        if n == 1:
            return R
        d = rel_dist3(R, R) + 9 * torch.eye(n, dtype=D)
        if best is None or d.min() > best[0]:
            best = (d.min().item(), R)
        if d.min() > 0.45:
            break
    if best[0] > 0.3 or n <= 2:
        return best[1]
    q = so3.uniform_grid(min(n, 24), "quat").to(D)
    q = q / q.norm(dim=-1, keepdim=True)
    return rot3(ctx, 1, "haar") @ refs.quat_mat(q)


def spread_angles(ctx, n):
    return torch.rand(1, 1, dtype=D) * 6 + (torch.arange(n, dtype=D)[:, None] + 0.5 * torch.rand(n, 1, dtype=D)) * 2 * pi / n


def ref_grid(ctx, fam, n):
    """a user supplied reference grid; E: n = (rotations, reflections), coset blocks in order"""
    if fam == "SE2":
        return spread_angles(ctx, n)
    if fam == "SE3":
        return spread_rotations(ctx, n)
    out = []
    for c, m in zip((1.0, -1.0), n):
        if not m:
            continue
        h = spread_angles(ctx, m) if fam == "E2" else spread_rotations(ctx, m).flatten(1)
        out.append(torch.cat((torch.full((h.shape[0], 1), c, dtype=D), h), -1))
    return torch.cat(out)


def rand_H(ctx, fam, n, kind=None):
    return GROUPS[FAM[fam]].rand(ctx, n, kind or ctx.rng.choice(("mixed", "haar")))


def acts(fam, h):
    return GROUPS[FAM[fam]].acts(h)


def exact_grid(m):
    """replace the buffer of a float64 SE3/E3 layer by exactly orthogonal rotations"""
    g = m.kernel.grid_H
    with torch.no_grad():
        if g.shape[1:] == (3, 3):
            g.copy_(refs.quat_mat(refs.mat_quat(g)))
        elif g.shape[1:] == (10,):
            g[:, 1:] = refs.quat_mat(refs.mat_quat(g[:, 1:].unflatten(-1, (3, 3)))).flatten(1)


# --------------------------------------------------------------- generators
def spec(ctx, kind=None, fam=None, **over) -> Spec:
    r = ctx.rng
    kind = kind or r.choice(KINDS)
    fam = fam or r.choice(tuple(FAM))
    n = DIM[fam]
    s = Spec(kind, fam)
    s.groups = r.choice([1, 1, 2, 3]) if n == 2 else r.choice([1, 1, 1, 2])
    s.cin = s.groups * r.randint(1, 2)
    s.cout = s.groups * r.randint(1, 3 if n == 2 else 2)
    s.k = r.choice([1, 2, 3, 3, 4, 5] if n == 2 else [1, 2, 3, 3, 4])
    if kind == "conv" and n == 3:
        s.k = min(s.k, 3)
    s.mask = s.k != 2 and r.random() < 0.7
    s.stride = r.choice([1, 1, 1, 2, 3])
    s.dilation = r.choice([1, 1, 1, 1, 1, 2, 2, 3])
    s.padding_mode = r.choice(["zeros", "zeros", "zeros", "reflect", "replicate", "circular"])
    s.padding = r.choice([0, 1, 2, "valid", "same"])
    if s.padding == "same":
        s.stride = 1
    s.bias = r.random() < 0.5
    s.smode = r.choice(["bilinear", "bilinear", "bilinear", "nearest"])
    s.spad = r.choice(["border", "border", "zeros"])
    s.gmode = r.choice(["rbf", "rbf", "rbf", "nearest"])
    if s.E:
        s.gk = (r.randint(1, 4), r.randint(1, 4))
        if r.random() < 0.3:
            s.gk = r.randint(1, 4)
    else:
        s.gk = r.choice([1, 2, 3, 4, 5, 6, 8])
    if r.random() < 0.2:  # one size far beyond the usual
        big = r.choice(["cin", "cout", "groups", "gk"])
        if big == "cin":
            s.cin = s.groups * r.randint(3, 6)
        elif big == "cout":
            s.cout = s.groups * r.randint(4, 9)
        elif big == "groups":
            s.groups = r.randint(4, 6)
            s.cin, s.cout = s.groups * r.randint(1, 2), s.groups
        elif s.E:
            s.gk = (r.randint(1, 12), r.randint(5, 12))
        else:
            s.gk = r.randint(9, 24)
    if r.random() < 0.4:
        m = rep(s.gk, 2) if s.E else s.gk
        s.grid = ref_grid(ctx, fam, m)
        if r.random() < 0.5 and not s.E:
            s.gk = r.choice([1, 4, 8])  # overridden by the grid
        if s.E and r.random() < 0.5:
            s.gk = (2, 2)
    if r.random() < 0.5:
        s.width = r.uniform(0.3, 0.9) if fam in ("SE3", "E3") else r.uniform(0.3, 1.2)
        s.width2 = r.uniform(0.3, 0.9)
    # one dimension as large as in practice (batches, channels, grids, kernels, images), the others small
    ctx.vast = r.choice(["N", "N", "cin", "cout", "groups", "gk", "in_H", "out_H", "k", "space"]) if r.random() < 0.1 else None
    if ctx.vast:
        ctx.describe(vast=ctx.vast)
        s.groups, s.cin, s.cout, s.k = 1, r.randint(1, 2), r.randint(1, 2), r.choice([1, 2, 3, 3, 3])
        s.grid = None
        if ctx.vast in ("k", "space"):
            s.stride, s.dilation, s.padding = 1, 1, r.choice([0, 1, "same"])
        s.gk = (r.randint(1, 2), r.randint(1, 2)) if s.E else r.randint(1, 4)
        if ctx.vast in ("cin", "cout"):
            setattr(s, ctx.vast, ctx.size(1, 1, what=ctx.vast))
        elif ctx.vast == "groups":
            s.groups = r.choice([7, 8, 9, 15, 16, 17, 32])
            s.cin, s.cout = s.groups, s.groups * r.randint(1, 2)
        elif ctx.vast == "gk":
            big = r.choice([12, 15, 16, 17, 23, 24] if n == 3 else [15, 16, 17, 31, 32, 33, 64])
            s.gk = r.choice([(big, r.randint(1, 2)), (r.randint(1, 2), big)]) if s.E else big
        elif ctx.vast == "k":
            s.k = r.choice([6, 7, 8, 9, 11] if n == 2 else [4, 5] if kind == "conv" else [5, 6, 7])
            s.padding = r.choice([0, s.k // 2, "same"])
    for k, v in over.items():
        setattr(s, k, v)
    if n == 2:  # keep the interpolation systems of dense grids well conditioned
        widest = 1.4 * 2 * pi / max(8, *rep(s.gk, 2), 0 if s.grid is None else s.grid.shape[0])
        s.width, s.width2 = min(s.width, widest), min(s.width2, widest)
    return s


def init(ctx, m):
    """realistic and hostile parameter values"""
    mag = ctx.rng.choice([1.0, 1.0, 1e-3, 30.0])
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, dtype=p.dtype) * mag)
    return mag


def spatial(ctx, s: Spec, lo=None, cubic=False, divisible=False):
    """a legal spatial size for the configuration"""
    n = s.n
    ks, st, di = (s.k,) * n, rep(s.stride, n), rep(s.dilation, n)
    pads = refs.pad_amounts(s.padding, ks, di)
    out = []
    axis = ctx.rng.randrange(n)
    for a in range(n):
        need = di[a] * (ks[a] - 1) + 1 - sum(pads[a])
        low = max(need, 1, max(pads[a]) + 1 if s.padding_mode != "zeros" else 1, lo or 1)
        L = low + ctx.size(0, 3, 9 if n == 2 else 6, 0.05)
        if ctx.vast == "space" and (n == 2 or a == axis) and not cubic:
            ctx.event("vast:space")
            L = max(low, ctx.rng.choice([15, 16, 17, 31, 32, 33, 64] if n == 2 else [15, 16, 17, 31, 32, 33]))
        if divisible:
            while (L - need) % st[a]:
                L += 1
        out.append(L)
    if cubic:
        out = [max(out)] * n
    return out


# ------------------------------------------------------------ reference model
def rel_dist3(A, B):
    return refs.so3_dist(refs.mat_quat(A), refs.mat_quat(B))


def default_width(fam, grid):
    """0.8 x the mean nearest-neighbour distance, float64"""
    n = grid.shape[0]
    three = fam in ("SE3", "E3")
    if n == 0:
        return 1.0
    if n == 1:
        return 0.8 * (pi / 2 if three else pi)
    g = grid.to(D)
    d = rel_dist3(g, g) if three else refs.so2_dist(g, g)
    # the library's nearest neighbour is the second smallest distance per row
    return 0.8 * (d + 99 * torch.eye(n, dtype=D)).min(-1)[0].mean().item()


def operator(s: Spec, grid, in_H, out_H):
    """phi[h', h, j]: how much reference element j contributes to the kernel at h'^-1 h"""
    g, hi, ho = grid.to(D), in_H.to(D), out_H.to(D)
    ni, no, n = hi.shape[0], ho.shape[0], g.shape[0]

    def block(hi, ho, g, width, three):
        if g.shape[0] == 0:
            return torch.zeros(ho.shape[0], hi.shape[0], 0, dtype=D)
        if three:
            rel = (ho.mT[:, None] @ hi[None]).flatten(0, 1)
            dn, dg = rel_dist3(rel, g), rel_dist3(g, g)
        else:
            rel = (hi.view(1, -1) - ho.view(-1, 1)).reshape(-1, 1)
            dn, dg = refs.so2_dist(rel, g), refs.so2_dist(g, g)
        if s.gmode == "nearest":
            m = dn.sort(-1)[0]
            if g.shape[0] > 1 and (m[:, 1] - m[:, 0] < getattr(s, "tie", 2e-3)).any():
                raise Ambiguous("nearest group element is a tie")
            A = refs.nn_matrix(dn)
        else:
            width = width or default_width("SE3" if three else "SE2", g)
            phi = torch.exp(-(dg**2) * refs.LN2 / width**2)
            s.cond = max(getattr(s, "cond", 1.0), torch.linalg.cond(phi).item())
            A = refs.rbf_matrix(dn, dg, width)
        return A.view(ho.shape[0], hi.shape[0], -1)

    s.cond = 1.0
    three = s.n == 3
    if not s.E:
        return block(hi, ho, g, s.width, three)
    shape = (lambda h: h[:, 1:].unflatten(-1, (3, 3))) if three else (lambda h: h[:, 1:])
    pos = g[:, 0] > 0
    a = block(shape(hi), shape(ho), shape(g[pos]), s.width, three)
    b = block(shape(hi), shape(ho), shape(g[~pos]), s.width2, three)
    par = (ho[:, 0][:, None] * hi[:, 0][None]) > 0
    return torch.cat((a * par[..., None], b * ~par[..., None]), -1)


class Ambiguous(Exception):
    pass


def points(s: Spec, out_H):
    """sampling positions h'^-1 p, (nout, *k, n)"""
    M = torch.linalg.inv(acts(s.fam, out_H))
    if s.n == 3:  # transposes rather than inverses: identical for orthogonal elements
        M = acts(s.fam, out_H).mT
    p = torch.einsum("hab,...b->h...a", M, refs.coords(s.k, s.n))
    if s.smode == "nearest":
        f = ((p + 1) * s.k - 1) / 2
        if s.spad == "border":
            f = f.clamp(0, s.k - 1)
        if ((f - f.floor() - 0.5).abs() < 1e-3).any():
            raise Ambiguous("nearest voxel is a tie")
    if s.spad == "zeros":
        f = ((p + 1) * s.k - 1) / 2
    return p


def spatial_kernels(s: Spec, W, out_H):
    """W (C, *k) -> (nout, C, *k) rotated and masked"""
    p = points(s, out_H)
    no = p.shape[0]
    out = refs.spatial_sample(W[None].expand(no, *W.shape), p, s.smode, s.spad)
    if s.mask:
        out = out * refs.ball_mask(s.k, s.n)
    return out


def kernel(s: Spec, m, in_H=None, out_H=None):
    """reference of layer.kernel(...): lift (o,h',c,*k); conv (o,h',c,h,*k); sep (weight_H, weight)"""
    with torch.no_grad():
        K, ks = m.kernel, (s.k,) * s.n
        cg = s.cin // s.groups
        no = out_H.shape[0]
        if s.kind == "lift":
            W = K.weight.to(D)
            out = spatial_kernels(s, W.reshape(s.cout * cg, *ks), out_H)
            return out.view(no, s.cout, cg, *ks).transpose(0, 1).contiguous()
        phi = operator(s, K.grid_H, in_H, out_H)
        ni, n = in_H.shape[0], phi.shape[-1]
        if s.kind == "conv":
            T = K.weight.to(D).reshape(n, -1)
            W = (phi.reshape(-1, n) @ T).view(no, ni, cg * s.cout, *ks)
            p = points(s, out_H)
            out = refs.spatial_sample(W.flatten(0, 1), p.repeat_interleave(ni, 0), s.smode, s.spad)
            if s.mask:
                out = out * refs.ball_mask(s.k, s.n)
            out = out.view(no, ni, cg, s.cout, *ks)
            d = list(range(4, 4 + s.n))
            return out.permute(3, 0, 2, 1, *d).contiguous()
        WH = (phi.reshape(-1, n) @ K.weight_H.to(D).reshape(n, -1)).view(no, ni, cg, s.cout).permute(3, 0, 2, 1)
        W = spatial_kernels(s, K.weight.to(D)[:, 0], out_H).transpose(0, 1)
        return WH.contiguous().view(s.cout, no, cg, ni, *(1,) * s.n), W[:, :, None].contiguous()


def dense(w, groups):
    """(O, I/g, ...) grouped -> (O, I, ...)"""
    if groups == 1:
        return w
    O, ig = w.shape[:2]
    out = torch.zeros(O, ig * groups, *w.shape[2:], dtype=w.dtype)
    og = O // groups
    for g in range(groups):
        out[g * og : (g + 1) * og, g * ig : (g + 1) * ig] = w[g * og : (g + 1) * og]
    return out


def apply(s: Spec, m, x, kern, in_n, no):
    """reference convolution of x with an already sampled kernel (library's or reference)"""
    n, ks = s.n, rep(s.k, s.n)
    st, di = rep(s.stride, n), rep(s.dilation, n)
    with torch.no_grad():
        x = x.to(D)
        N = x.shape[0]
        if s.kind == "lift":
            w = dense(kern.to(D).flatten(0, 1), s.groups)
            y = refs.conv(x, w, st, s.padding, di, s.padding_mode)
        elif s.kind == "conv":
            w = dense(kern.to(D).flatten(2, 3).flatten(0, 1), s.groups)
            y = refs.conv(x.flatten(1, 2), w, st, s.padding, di, s.padding_mode)
        else:
            WH, W = kern
            w = dense(WH.to(D).reshape(s.cout * no, -1), s.groups)
            z = torch.einsum("ni...,oi->no...", x.flatten(1, 2), w)
            W = W.to(D).reshape(s.cout * no, *ks)
            y = torch.cat([
                refs.conv(z[:, c : c + 1], W[c][None, None], st, s.padding, di, s.padding_mode) for c in range(s.cout * no)
            ], 1)
        y = y.view(N, s.cout, no, *y.shape[2:])
        if m.bias is not None:
            y = y + m.bias.to(D).view(1, -1, 1, *(1,) * n)
    return y


# ----------------------------------------------------------------- calls
def run(ctx, m, s: Spec, x, in_H=None, out_H=None):
    """observed call of the layer"""
    was = {k: (b.requires_grad, tuple(b.shape), b.dtype) for k, b in m.named_buffers()}
    out = ctx.call(f"{s.kind}{s.fam}.forward", m, x, *((out_H,) if s.kind == "lift" else (in_H, out_H)))
    now = {k: (b.requires_grad, tuple(b.shape), b.dtype) for k, b in m.named_buffers()}
    ctx.check("buffers-stay-what-they-are", now == was, f"{was} -> {now}")
    return out


def run_kernel(ctx, m, s: Spec, in_H, out_H):
    if s.kind == "lift":
        return ctx.call(f"kernel:{s.kind}{s.fam}", m.kernel, out_H)
    return ctx.call(f"kernel:{s.kind}{s.fam}", m.kernel, in_H, out_H)


def features(ctx, s: Spec, N, dims, in_n=None, dtype=None):
    shape = (N, s.cin) + (() if s.kind == "lift" else (in_n,)) + tuple(dims)
    kind = ctx.rng.choice(["normal", "normal", "normal", "impulse", "sparse"])
    x = torch.randn(shape, dtype=D)
    if kind == "impulse":
        i = ctx.rng.randrange(x.numel())
        x = torch.zeros(x.numel(), dtype=D).index_fill_(0, torch.tensor([i]), 1.0).view(shape)
    if kind == "sparse":
        x = x * (torch.rand(shape) < 0.3)
    x = x.to(dtype or s.dtype)
    if ctx.rng.random() < 0.2:  # a non-contiguous view of the same values
        x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
    return x


# ---------------------------------------------------------- voxel symmetries
def symmetries(fam):
    """exact group elements (matrices on vector components) mapping the voxel grid to itself:
    [(element as the library represents it, matrix acting on coordinates)]"""
    if fam in ("SE2", "E2"):
        rots = [(q * pi / 2, M) for q, M in enumerate(C4)]
        if fam == "SE2":
            return [(torch.tensor([[a]], dtype=D), M) for a, M in rots]
        return [(torch.tensor([[c, a]], dtype=D), c * M) for c in (1.0, -1.0) for a, M in rots]
    Rs = refs.octahedral_matrices()
    if fam == "SE3":
        return [(R[None], R) for R in Rs]
    return [(torch.cat((torch.tensor([c], dtype=D), R.flatten()))[None], c * R) for c in (1.0, -1.0) for R in Rs]


C4 = [torch.tensor(m, dtype=D) for m in ([[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]])]


def mul(fam, g, H):
    """g . H with the harness' own arithmetic, in H's dtype"""
    g, h = g.to(D), H.to(D)
    if fam == "SE2":
        r = h + g
    elif fam == "E2":
        r = torch.cat((h[:, :1] * g[:, :1], h[:, 1:] + g[:, 1:]), -1)
    elif fam == "SE3":
        r = g @ h
    else:
        r = torch.cat((h[:, :1] * g[:, :1], (g[:, 1:].unflatten(-1, (3, 3)) @ h[:, 1:].unflatten(-1, (3, 3))).flatten(1)), -1)
    return r.to(H.dtype)


def axis_matrix(M):
    """component matrix -> matrix on array axes (2D: component c is axis c; 3D: axis 2-c)"""
    return M if M.shape[0] == 2 else M.flip(0, 1)


def img_act(M, x):
    """(g.x)(p) = x(g^-1 p) on the last n axes"""
    A = axis_matrix(M).round().long()
    n = A.shape[0]
    src = [int(A[a].abs().argmax()) for a in range(n)]
    lead = x.ndim - n
    y = x.permute(*range(lead), *[lead + a for a in src])
    flips = [lead + a for a in range(n) if A[a, src[a]] < 0]
    return y.flip(flips).contiguous() if flips else y.contiguous()
