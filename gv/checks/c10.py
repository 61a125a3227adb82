"""C10 lifting convolutions are equivariant"""
import torch

from gconv.geometry import so3
from gv import layers as L, refs
from gv.core import Family
from gv.refs import D

PROPERTY = "C10"
KIND = ("lift",)


def isotropic(s):
    """configurations that a voxel symmetry maps to themselves: symmetric padding"""
    if s.padding == "same" and (s.dilation * (s.k - 1)) % 2:
        s.padding = 1
    return s


def make(ctx, **over):
    kind = ctx.rng.choice(KIND)
    s = isotropic(L.spec(ctx, kind, **over))
    m = L.build(s)
    mag = L.init(ctx, m)
    # torch.linspace(-1, 1, k) in float32 is antisymmetric up to 1e-7 only for these sizes
    s.slack = 0.0
    if s.k in (7, 11):
        w = 1.0
        for p in m.kernel.parameters():
            w *= p.abs().max().item()
        s.slack = 2e-5 * s.k * w * (24 * s.cin * s.k**s.n) ** 0.5
    return s, m, mag


def unambiguous(s, m, hi, ho):
    """fall back to continuous modes where rounding would decide"""
    try:
        if s.smode == "nearest":
            L.points(s, ho)
        if s.kind != "lift" and s.gmode == "nearest":
            L.operator(s, m.kernel.grid_H, hi, ho)
        return True
    except L.Ambiguous:
        return False


def pair(ctx, tries=6, **over):
    """a layer with input and output group elements whose response is not a rounding tie"""
    for _ in range(tries):
        s, m, mag = make(ctx, **over)
        ni, no = ctx.size(1, 5, what="in_H"), ctx.size(1, 5, what="out_H")
        hi, ho = (L.rand_H(ctx, s.fam, n).to(s.dtype) for n in (ni, no))
        if ctx.rng.random() < 0.25:
            ho = m.kernel.grid_H.clone()
        elif ctx.rng.random() < 0.15:
            ho = hi  # one object for both
        if unambiguous(s, m, hi, ho):
            break
    else:
        over.update(smode="bilinear", gmode="rbf")
        s, m, mag = make(ctx, **over)
        hi, ho = (L.rand_H(ctx, s.fam, 3).to(s.dtype) for _ in range(2))
    ctx.describe(**s.brief(), n_in=hi.shape[0], n_out=ho.shape[0])
    return s, m, mag, hi, ho


def tol(s, y):
    scale = max(y.abs().max().item(), 1e-12)
    return scale * ((2e-4 if s.kind == "lift" else 2e-3) if s.dtype == torch.float32 else 1e-9) + s.slack


def symmetry(ctx):
    """Conv(g.x; g.H_in, g.H_out) = g.Conv(x; H_in, H_out), g a symmetry of the voxel grid, H arbitrary"""
    s, m, mag, hi, ho = pair(ctx, dtype=torch.float32 if ctx.rng.random() < 0.1 else D)
    dims = L.spatial(ctx, s, lo=ctx.rng.choice([3, 4, 5]), divisible=True)
    x = L.features(ctx, s, ctx.size(1, 2, 9, what="N"), dims, hi.shape[0])
    y, H = L.run(ctx, m, s, x, hi, ho)
    ctx.same("returned-grid", H, ho)
    syms = L.symmetries(s.fam)
    for g, M in ctx.rng.sample(syms, 3):
        yg, Hg = L.run(ctx, m, s, L.img_act(M, x), L.mul(s.fam, g, hi), L.mul(s.fam, g, ho))
        ctx.close(f"equivariance:{s.kind}{s.fam}", yg, L.img_act(M, y), tol(s, y), M=M)
        ctx.event("group-elements")
    ctx.event("responses", y.numel())
    if not (y.abs().max() > 0):
        ctx.trivial = True


def closed_grids(ctx, fam):
    if fam == "SE2":
        return torch.arange(ctx.rng.choice([4, 8, 12]), dtype=D)[:, None]
    if fam == "E2":
        return None
    return None


def closed(ctx, fam):
    """a finite grid of group elements that the voxel symmetries (some of them) permute,
    with those symmetries"""
    r = ctx.rng
    syms = L.symmetries(fam)
    if fam in ("SE2", "E2"):
        n = r.choice([4, 8, 12])
        a = torch.arange(n, dtype=D)[:, None] * (2 * torch.pi / n) + r.choice([0.0, r.random()])
        if fam == "E2":
            a = torch.cat([torch.cat((torch.full_like(a, c), a), -1) for c in (1.0, -1.0)])
        return a, syms
    name = r.choice(["octahedral", "tetrahedral", "klein_group", "c4"])
    if name == "c4":
        R = torch.stack([refs.axis_rot(2, i * torch.pi / 2) for i in range(4)])
    else:
        R = refs.quat_mat(getattr(so3, name)().to(D))
        R = R.round() if name != "x" else R
    ctx.describe(closed=name)
    def member(M):
        return (R - M).flatten(1).abs().max(1)[0].min() < 1e-6
    R = R @ L.rot3(ctx, 1, "haar") if r.random() < 0.5 else R
    base = R @ R[0].mT
    ok = [(g, M) for g, M in syms if (base - M * torch.linalg.det(M).round()).flatten(1).abs().max(1)[0].min() < 1e-6]
    if fam == "E3":
        R = torch.cat([torch.cat((torch.full((len(R), 1), c, dtype=D), R.flatten(1)), -1) for c in (1.0, -1.0)])
    return R, ok


def match(s, gH, H):
    """permutation p with gH[i] = H[p[i]]"""
    A, B = L.GROUPS[L.FAM[s.fam]].rep(gH), L.GROUPS[L.FAM[s.fam]].rep(H)
    d = (A[:, None] - B[None]).flatten(2).abs().max(-1)[0]
    p = d.argmin(1)
    assert d.gather(1, p[:, None]).max() < 1e-5 and len(set(p.tolist())) == len(H)
    return p


def relabelled(ctx):
    """with a grid closed under g the grid stays fixed and the group axis is permuted instead"""
    fam = ctx.rng.choice(tuple(L.FAM))
    for _ in range(6):
        s, m, mag = make(ctx, fam=fam, cin=2, cout=2, groups=1)
        s_grid, syms = closed(ctx, fam)
        ho = s_grid.to(s.dtype)
        hi, isyms = (ho, syms)
        if unambiguous(s, m, hi, ho):
            break
    else:
        s, m, mag = make(ctx, fam=fam, cin=2, cout=2, groups=1, smode="bilinear", gmode="rbf")
    ctx.describe(**s.brief(), n=len(ho))
    dims = L.spatial(ctx, s, lo=3, divisible=True)
    x = L.features(ctx, s, 1, dims, hi.shape[0])
    y, _ = L.run(ctx, m, s, x, hi, ho)
    for g, M in ctx.rng.sample(syms, min(2, len(syms))):
        p = match(s, L.mul(fam, g, ho), ho)
        gx = L.img_act(M, x)
        if s.kind != "lift":  # (g.x)(p, gh) = x(g^-1 p, h)
            z = torch.empty_like(gx)
            z[:, :, p] = gx
            gx = z
        yg, _ = L.run(ctx, m, s, gx, hi, ho)
        ctx.close(f"equivariance-relabelled:{s.kind}{fam}", yg[:, :, p], L.img_act(M, y), tol(s, y) * 100)
        ctx.check("not-the-identity-only", True)


def translation(ctx):
    """shifting the input by a multiple of the stride shifts the output"""
    s, m, mag, hi, ho = pair(ctx, stride=ctx.rng.choice([1, 1, 2]), padding=0, padding_mode="zeros")
    n, st = s.n, s.stride
    ni = hi.shape[0]
    span = s.dilation * (s.k - 1)
    how = ctx.choice("translation", ["crop", "circular", "zeros"])
    if how == "crop":
        dims = [span + 1 + st * ctx.rng.randint(2, 3) for _ in range(n)]
        x = L.features(ctx, s, 1, dims, ni)
        y, _ = L.run(ctx, m, s, x, hi, ho)
        for ax in range(n):
            t = ctx.rng.randint(1, 2)
            yt, _ = L.run(ctx, m, s, x.narrow(x.ndim - n + ax, st * t, dims[ax] - st * t), hi, ho)
            ctx.close("translation-equivariance", yt, y.narrow(y.ndim - n + ax, t, yt.shape[3 + ax]), tol(s, y))
        return
    if span % 2:
        ctx.trivial = True
        return
    s.padding, s.padding_mode = span // 2, "circular" if how == "circular" else "zeros"
    m2 = L.build(s)
    m2.load_state_dict(m.state_dict())
    dims = [st * ((span + 1) // st + ctx.rng.randint(3, 4)) for _ in range(n)]
    x = L.features(ctx, s, 1, dims, ni)
    if how == "zeros":  # content away from the border, so that nothing falls off
        keep = torch.zeros(dims, dtype=s.dtype)
        keep[tuple(slice(d // 2 - 1, d // 2) for d in dims)] = 1
        x = x * keep
    y, _ = L.run(ctx, m2, s, x, hi, ho)
    ax, t = ctx.rng.randrange(n), ctx.rng.choice([-1, 1])
    yt, _ = L.run(ctx, m2, s, x.roll(st * t, x.ndim - n + ax), hi, ho)
    want = y.roll(t, 3 + ax)
    if how == "zeros":  # what leaves the window is cut: compare where both are inside
        a, b = (1, y.shape[3 + ax]) if t == 1 else (0, y.shape[3 + ax] - 1)
        yt, want = (z.narrow(3 + ax, a, b - a) for z in (yt, want))
    ctx.close("translation-equivariance", yt, want, tol(s, y))


FAMILIES = [
    Family("symmetry", symmetry, 420, 9000),
    Family("relabelled", relabelled, 160, 3000),
    Family("translation", translation, 200, 4000),
]
