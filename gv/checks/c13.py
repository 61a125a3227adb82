"""C13 sampled kernels: the continuous kernel evaluated at h'^-1 h and h'^-1 p"""
import torch

import gconv.gnn.functional as gF
from gconv.geometry import o2, o3, so2, so3
from gconv.gnn.kernels import GSubgroupKernelSO3
from gv import layers as L, refs
from gv.core import Family
from gv.groups import rot3
from gv.refs import D

PROPERTY = "C13"


def draw(ctx, precise=False, **over):
    for _ in range(8):
        s = L.spec(ctx, **over)
        m = L.build(s)
        mag = L.init(ctx, m)
        exact = s.n == 3 and s.dtype == D and (precise or ctx.rng.random() < 0.6)
        if exact:
            L.exact_grid(m)
        hi = L.rand_H(ctx, s.fam, ctx.size(1, 5, what="in_H")).to(s.dtype)
        ho = L.rand_H(ctx, s.fam, ctx.size(1, 5, what="out_H")).to(s.dtype)
        how = ctx.rng.random()
        if how < 0.2:
            hi = m.kernel.grid_H if how < 0.05 else m.kernel.grid_H.clone()
        if how < 0.1 or how > 0.9:
            ho = m.kernel.grid_H if how < 0.03 or how > 0.95 else m.kernel.grid_H.clone()
        if 0.4 < how < 0.55:  # a layer that keeps its input's group elements: one object for both
            ho = hi
        try:
            ref = L.kernel(s, m, hi, ho)
        except L.Ambiguous:
            over.update(smode="bilinear", gmode="rbf")
            continue
        ctx.describe(**s.brief(), n_in=len(hi), n_out=len(ho), exact=exact)
        return s, m, mag, hi, ho, ref, exact
    raise AssertionError("no unambiguous kernel")


def reference(ctx):
    """layer.kernel(H_in, H_out) equals the float64 model"""
    dt = torch.float32 if ctx.rng.random() < 0.2 else D
    s, m, mag, hi, ho, ref, exact = draw(ctx, dtype=dt)
    got = L.run_kernel(ctx, m, s, hi, ho)
    parts = [("spatial", got, ref)]
    if s.kind == "sep":
        parts = [("group", got[0], ref[0]), ("spatial", got[1], ref[1])]
    if s.kind == "conv":
        parts = [("full", got, ref)]
    for what, g, r in parts:
        ctx.check("kernel-dtype", g.dtype == dt, str(g.dtype))
        scale = mag * 4
        t = 5e-6
        if what != "spatial":
            c = getattr(s, "cond", 1.0)
            if s.gmode == "nearest":
                t = 5e-6
            elif s.n == 2:
                t = 5e-6 + 1e-8 * c
                if s.width == 0 or s.E and s.width2 == 0:
                    t += 1e-6 * c
            else:
                t = (2e-5 if exact and s.width else 3e-4) * (1 + c / 10)
            if dt == torch.float32:
                # acos resolves float32 distances to 5e-4 only
                t = max(t, 3e-3 * c) if s.gmode == "rbf" else t
        ctx.close(f"kernel-{what}:{s.kind}{s.fam}", g, r, t * scale)
    ctx.event("kernel-values", sum(g.numel() for _, g, _ in parts))


def precise(ctx):
    """a float64 layer with explicit widths follows the float64 model to float64 rounding"""
    widths = dict(width=ctx.rng.uniform(0.3, 0.7), width2=ctx.rng.uniform(0.3, 0.7))
    torch.set_default_dtype(D)
    try:
        s, m, mag, hi, ho, ref, _ = draw(ctx, True, dtype=D, **widths)
    finally:
        torch.set_default_dtype(torch.float32)
    got = L.run_kernel(ctx, m, s, hi, ho)
    for what, g, r in zip(("group", "spatial") if s.kind == "sep" else ("full",), *((got, ref) if s.kind == "sep" else ((got,), (ref,)))):
        rbf = what != "spatial" and s.kind != "lift" and s.gmode == "rbf"
        ctx.close(f"precise-{what}:{s.kind}{s.n}", g, r, mag * 3e-9 * (s.cond if rbf else 1))


def subgroup(ctx):
    """GSubgroupKernelSO3"""
    n = ctx.rng.choice([1, 2, 3, 4, 6, 12, 24])
    grid = L.spread_rotations(ctx, min(n, 6)) if ctx.flip("given") else None
    groups, cin, cout = (ctx.choice(k, [a, b]) for k, a, b in (("groups", 1, 2), ("cin", 2, 4), ("cout", 2, 4)))
    mode = ctx.choice("mode", ["rbf", "rbf", "nearest"])
    width = ctx.choice("width", [0.0, 0.4, 0.7])
    m = GSubgroupKernelSO3(cin, cout, n, groups=groups, sampling_mode=mode, sampling_width=width,
                           grid_H=None if grid is None else grid.float()).double()
    g = m.grid_H
    with torch.no_grad():
        if g.ndim == 3:  # the reference grid may be held as matrices or quaternions
            g.copy_(refs.quat_mat(refs.mat_quat(g)))
            rot = g
        else:
            g.copy_(g / g.norm(dim=-1, keepdim=True))
            rot = refs.quat_mat(g)
    L.init(ctx, m)
    mag = m.weight.abs().max().item()
    hi, ho = rot3(ctx, ctx.randint("n_in", 1, 5), "haar"), rot3(ctx, ctx.randint("n_out", 1, 5), "haar")
    s = L.Spec("sep", "SE3", cin, cout, 1, groups, gmode=mode, width=width)
    try:
        phi = L.operator(s, rot, hi, ho)
    except L.Ambiguous:
        ctx.trivial = True
        return
    got = ctx.call("kernel:subgroupSO3", m, hi, ho)
    cg = cin // groups
    want = (phi.reshape(-1, len(g)) @ m.weight.detach().reshape(len(g), -1)).view(len(ho), len(hi), cg, cout, 1, 1, 1)
    ctx.close("kernel-subgroup", got, want.permute(3, 0, 2, 1, 4, 5, 6), mag * (3e-4 if width == 0 or grid is None else 2e-5) * (1 + s.cond))


def mask(ctx):
    """masked kernels vanish outside the ball, unmasked ones do not; the mask is the ball itself"""
    s, m, mag, hi, ho, ref, _ = draw(ctx, k=ctx.rng.choice([3, 4, 5]), dtype=D)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(p.abs() + mag)
    if s.gmode == "rbf" and s.kind == "conv":
        ctx.trivial = True
    got = L.run_kernel(ctx, m, s, hi, ho)
    w = got[1] if s.kind == "sep" else got
    ball = refs.ball_mask(s.k, s.n).bool()
    if s.mask:
        ctx.check("zero-outside-the-ball", (w[..., ~ball] == 0).all(), "masked kernel is not zero outside the ball")
    if s.spad == "border" and (s.kind != "conv" or s.gmode == "nearest" and not s.E):
        ctx.check("alive-inside-the-ball", (w[..., ball] > 0).all(), "a positive kernel has zeros inside")
        if not s.mask:
            ctx.check("unmasked", (w > 0).all(), "mask=False is masked")


def grids(ctx):
    """reference coordinates, masks and default group grids"""
    k, n = ctx.randint("size", 1, 24), ctx.choice("dim", [2, 3])
    if n == 3:
        k = min(k, 12)
    g = ctx.call("create_grid", gF.create_grid_R2 if n == 2 else gF.create_grid_R3, k)
    ctx.close("coordinate-grid", g, refs.coords(k, n), 1e-6)
    ctx.close("coordinate-grid-symmetric", g.flip(list(range(n))), -g, 1e-6)
    mk = ctx.call("create_mask", gF.create_spherical_mask_R2 if n == 2 else gF.create_spherical_mask_R3, k)
    r = refs.coords(k, n).norm(dim=-1)
    sure = (r - 1.1).abs() > 1e-5
    ctx.close("ball-mask", mk[sure], refs.ball_mask(k, n)[sure], 1e-9)
    for perm in ([1, 0], [0, 1]) if n == 2 else ([1, 0, 2], [2, 0, 1], [0, 2, 1]):
        ctx.check("ball-mask-symmetric", torch.equal(mk.permute(perm), mk))
    ctx.check("ball-mask-symmetric", torch.equal(mk.flip(0), mk))


def defaults(ctx):
    """the default reference grid is the uniform grid of the requested size; a given one is kept"""
    kind, fam = ctx.choice("kind", L.KINDS), ctx.choice("fam", list(L.FAM))
    E = fam in ("E2", "E3")
    gk = ((ctx.randint("rot", 1, 12), ctx.randint("ref", 1, 12)) if ctx.flip("tuple") else ctx.randint("gk", 1, 12)) if E else ctx.randint("gk", 1, 24)
    size = (gk if isinstance(gk, tuple) else (gk, gk)) if E else gk
    s = L.Spec(kind, fam, gk=gk, dtype=torch.float32)
    m = L.build(s)
    uni = {"SE2": so2, "E2": o2, "SE3": so3, "E3": o3}[fam].uniform_grid(*([size, "matrix"] if fam == "SE3" else [size]))
    ctx.close("default-grid", m.kernel.grid_H, uni, 1e-6)
    given = L.ref_grid(ctx, fam, size).float()
    s.grid = given
    before = given.clone()
    m = L.build(s)
    ctx.same("given-grid", m.kernel.grid_H, given)
    ctx.same("given-grid", given, before)
    if kind == "conv":
        ctx.check("parameters-follow-the-grid", m.kernel.weight.shape == (len(given), s.cout, s.cin, *(s.k,) * s.n), str(m.kernel.weight.shape))
    if kind == "sep":
        ctx.check("parameters-follow-the-grid", m.kernel.weight_H.shape == (len(given), s.cout, s.cin), str(m.kernel.weight_H.shape))


def spread(ctx, fam, n):
    """n well separated elements of one coset"""
    if fam in ("SE2", "E2"):
        return L.spread_angles(ctx, n)
    q = torch.randn(2500, 4, dtype=D)
    q = q / q.norm(dim=-1, keepdim=True)
    far, idx = torch.full((len(q),), 9.0, dtype=D), [0]
    while len(idx) < n:
        far = torch.minimum(far, torch.acos((q @ q[idx[-1]]).abs().clamp(max=1)))
        idx.append(int(far.argmax()))
    R = refs.quat_mat(q[torch.tensor(idx)[torch.randperm(n)]])
    return R if fam == "SE3" else R.flatten(1)


def large_defaults(ctx):
    """the default width is 0.8 of the mean nearest neighbour distance of the whole reference grid, whatever its size"""
    kind, fam = ctx.choice("kind", ["sep", "conv", "subgroup"]), ctx.choice("fam", list(L.FAM))
    if kind == "subgroup":
        fam = "SE3"
    E = fam in ("E2", "E3")
    sizes = [ctx.randint("size", 2, 140) for _ in range(1 + E)]
    parts = [spread(ctx, fam, n) for n in sizes]
    w = []
    for p in parts:
        if fam in ("SE2", "E2"):
            d = refs.so2_dist(p, p)
        else:
            q = refs.mat_quat(p.reshape(-1, 3, 3))
            d = torch.acos((q @ q.mT).abs().clamp(max=1))
        w.append(0.8 * (d + 9 * torch.eye(len(p), dtype=D)).min(-1)[0].mean().item())
    if E:
        grid = torch.cat([torch.cat((torch.full((len(p), 1), c, dtype=D), p), -1) for p, c in zip(parts, (1.0, -1.0))])
    else:
        grid = parts[0]
    if kind == "subgroup":
        make = lambda *w: GSubgroupKernelSO3(1, 2, len(grid), grid_H=grid, **({"sampling_width": w[0]} if w else {})).to(D)
    else:
        names = ["group_rotation_sampling_width", "group_reflection_sampling_width"] if E else ["group_sampling_width"]
        make = lambda *w: L.CLS[kind, fam](1, 2, 1, group_kernel_size=tuple(sizes) if E else sizes[0], grid_H=grid, **dict(zip(names, w))).to(D).kernel
    a, b = ctx.call("construct", make), make(*w)
    ctx.same("given-grid", a.grid_H, grid)
    b.load_state_dict(a.state_dict())
    h = L.rand_H(ctx, fam, 3), L.rand_H(ctx, fam, 2)
    got, want = a(*h), b(*h)
    if kind == "sep":
        got, want = got[0], want[0]
    ctx.close("default-width", got, want, 1e-4 * want.abs().max().item() + 1e-9)


FAMILIES = [
    Family("large_defaults", large_defaults, 120, 1500),
    Family("reference", reference, 700, 14000),
    Family("precise", precise, 48, 1200),
    Family("subgroup", subgroup, 120, 2500),
    Family("mask", mask, 160, 3000),
    Family("grids", grids, 60, 400),
    Family("defaults", defaults, 120, 2000),
]
