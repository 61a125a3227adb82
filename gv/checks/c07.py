"""C07 uniform grids and the repulsion model"""
import math

import torch

from gconv.geometry import o2, o3, repulsion, so2, so3
from gconv.geometry.groups import s2
from gv import refs
from gv.core import Family
from gv.refs import D, pi

PROPERTY = "C07"


def packing_bound(n):
    """half rotation angle d at which n disjoint balls of radius d/2 would fill SO(3)"""
    a, b = 1e-3, pi
    for _ in range(60):
        c = (a + b) / 2
        a, b = (c, b) if n * (c - math.sin(c)) / pi < 1 else (a, c)
    return a


def as_matrix(g, param):
    return {"quat": lambda q: refs.quat_mat(q / q.norm(dim=-1, keepdim=True)), "matrix": lambda x: x.double(), "euler": refs.euler_zyz}[param](g)


def mode(ctx):
    """models are also built where no gradients are recorded"""
    return {"grad": torch.enable_grad, "no-grad": torch.no_grad, "inference": torch.inference_mode}[ctx.choice("mode", ["grad", "grad", "no-grad", "inference"])]()


TAIL = {"quat": (4,), "matrix": (3, 3), "euler": (3,)}


def check_so3(ctx, g, n, param, quality, average=0.0):
    ctx.check("grid-shape", g.shape == (n, *TAIL[param]), f"{g.shape} for {n} {param}")
    ctx.check("no-autograd-history", not g.requires_grad and g.grad_fn is None)
    if param == "quat":
        ctx.close("unit-quaternions", g.norm(dim=-1), torch.ones(n), 3e-4)
    M = as_matrix(g, param)
    ctx.close("rotations", M @ M.mT, torch.eye(3, dtype=D).expand(n, 3, 3), 5e-4)
    ctx.close("rotations", torch.linalg.det(M), torch.ones(n), 5e-4)
    if n > 1:
        q = refs.mat_quat(M)
        d = refs.so3_dist(q, q) + 10 * torch.eye(n, dtype=D)
        nn = d.min(-1)[0]
        b = packing_bound(n)
        ctx.ratio("spread(quality floor / measured)", quality * b / nn.min().item())
        ctx.check("well-spread", nn.min() > quality * b, f"closest pair at {nn.min():.3f}, {quality} x bound is {quality*b:.3f}")
        average = max(average, quality)
        ctx.ratio("mean-spread(floor / measured)", average * b / nn.mean().item())
        ctx.check("well-spread", nn.mean() > average * b, f"mean neighbour distance {nn.mean():.3f}, {average} x bound is {average*b:.3f}")
    return M


def cached_sizes(ctx):
    """every precomputed size, both parameterisations: valid, spread, the same grid"""
    n = ctx.index % 24 + 1
    ctx.describe(n=n)
    q = ctx.call("so3.uniform_grid", so3.uniform_grid, n, "quat", show_pbar=False)
    m = ctx.call("so3.uniform_grid", so3.uniform_grid, n, "matrix", show_pbar=False)
    Mq, Mm = check_so3(ctx, q, n, "quat", 0.6), check_so3(ctx, m, n, "matrix", 0.6)
    d = refs.so3_dist(refs.mat_quat(Mq), refs.mat_quat(Mm)).min(-1)[0]
    ctx.check("same-grid-in-both-parameterisations", (d < 5e-3).all(), f"a quaternion is {d.max():.3f} away from every matrix")
    ctx.same("repeatable", so3.uniform_grid(n, "quat", show_pbar=False), q)
    ctx.same("repeatable", so3.uniform_grid(n, "matrix", show_pbar=False), m)
    for s in ("QUAT", "Matrix"):
        g = so3.uniform_grid(n, s, show_pbar=False)
        ctx.check("case-insensitive", g.shape[1:] == TAIL[s.lower()])


def so3_generated(ctx):
    param = ctx.choice("param", ["euler", "quat", "matrix"])
    large = ctx.index % 6 == 5
    n = ctx.randint("n", 64, 260) if large else ctx.randint("n", 2 if param == "euler" else 25, 48)
    with mode(ctx):
        g = ctx.call("so3.uniform_grid", so3.uniform_grid, n, param, show_pbar=False)
    # (over 2300 generated grids the worst were 0.58 of the bound for n < 10 and 0.65 above)
    # (1500 further ones: mean distances above 0.55 for n < 10, 0.72 for n < 25, 0.757 below and 0.789 above n = 64)
    floors = next(f for m, *f in ((10, 0.42, 0.45), (25, 0.52, 0.66), (64, 0.52, 0.71), (math.inf, 0.6, 0.765)) if n < m)
    check_so3(ctx, g, n, param, *floors)
    s = ctx.rng.randrange(2**31)
    torch.manual_seed(s)
    a = so3.uniform_grid(n, param, steps=5, show_pbar=False)
    torch.manual_seed(s)
    ctx.same("seed-reproduces", so3.uniform_grid(n, param, steps=5, show_pbar=False), a)


def o3_grids(ctx):
    n, m = ctx.randint("rotations", 0, 24), ctx.randint("reflections", 0, 24)
    if n + m == 0:
        n = 1
    g = ctx.call("o3.uniform_grid", o3.uniform_grid, (n, m))
    ctx.check("grid-shape", g.shape == (n + m, 10), str(g.shape))
    ctx.check("rotations-first", (g[:n, 0] == 1).all() and (g[n:, 0] == -1).all())
    only = ctx.call("o3.uniform_grid", o3.uniform_grid, (n, m), matrix_only=True)
    ctx.check("grid-shape", only.shape == (n + m, 3, 3), str(only.shape))
    ctx.close("matrix-only-agrees", g[:, 1:].unflatten(-1, (3, 3)), only, 1e-7)
    if n:
        check_so3(ctx, only[:n], n, "matrix", 0.6)
    if m:
        check_so3(ctx, only[n:], m, "matrix", 0.6)
    a, b = ctx.rng.randint(0, 30), ctx.rng.randint(1, 30)
    h = ctx.call("o2.uniform_grid", o2.uniform_grid, (a, b))
    ctx.check("grid-shape", h.shape == (a + b, 2), str(h.shape))
    ctx.check("rotations-first", (h[:a, 0] == 1).all() and (h[a:, 0] == -1).all())
    for part, k in ((h[:a, 1], a), (h[a:, 1], b)):
        ctx.close("equispaced", part, torch.arange(k, dtype=D) * 2 * pi / max(k, 1), 2e-6)
    ctx.close("equispaced", so2.uniform_grid(b)[:, 0], torch.arange(b, dtype=D) * 2 * pi / b, 2e-6)


def sphere_grids(ctx):
    n = ctx.randint("n", 2, 40) if ctx.index % 5 else ctx.randint("n", 41, 160)
    param = ctx.choice("param", ["euclidean", "spherical", "euler", "matrix", "quat"])
    neg = ctx.flip("alpha=-gamma")
    with mode(ctx):
        g = ctx.call("s2.uniform_grid_s2", s2.uniform_grid_s2, n, param, set_alpha_as_neg_gamma=neg, show_pbar=False)
    tail = {"euclidean": (3,), "spherical": (2,), **TAIL}[param]
    ctx.check("grid-shape", g.shape == (n, *tail), str(g.shape))
    ctx.check("no-autograd-history", not g.requires_grad)
    if param in TAIL:
        M = as_matrix(g, param)
        ctx.close("rotations", M @ M.mT, torch.eye(3, dtype=D).expand(n, 3, 3), 1e-4)
        x = M[..., 2]  # image of the north pole
        # alpha = 0 or -gamma
        if param == "euler":
            ctx.close("alpha-convention", g[:, 0], -g[:, 2] if neg else torch.zeros(n), 1e-6)
        else:
            tw = refs.axis_rot(2, torch.atan2(x[:, 1], x[:, 0])) @ refs.axis_rot(1, torch.acos(x[:, 2].clamp(-1, 1)))
            rest = tw.mT @ M  # a rotation about z by alpha (up to the (beta, gamma) ~ (-beta, gamma+pi) ambiguity)
            ctx.close("alpha-convention", rest[:, 2, 2], torch.ones(n), 1e-3)
    elif param == "spherical":
        b, c = g.double().unbind(-1)
        x = torch.stack((torch.sin(b) * torch.cos(c), torch.sin(b) * torch.sin(c), torch.cos(b)), -1)
    else:
        x = g.double()
    ctx.close("on-the-sphere", x.norm(dim=-1), torch.ones(n), 1e-4)
    d = torch.acos((x @ x.T).clamp(-1, 1)) + 10 * torch.eye(n, dtype=D)
    floor = 2.4 / math.sqrt(n)  # (the worst of 2300 grids was 3.03)
    ctx.ratio("sphere-spread(floor / measured)", floor / d.min().item())
    ctx.check("well-spread", d.min() > floor, f"closest pair {d.min():.3f} for {n} points")
    if n > 8:  # (the worst of 1200 was 3.31)
        ctx.check("well-spread", d.min(-1)[0].mean() > 3.1 / math.sqrt(n), f"mean distance {d.min(-1)[0].mean():.3f} for {n} points")


def energy(x, metric, norm, k=2):
    d = (metric(x[:, None], x) / norm).sort(-1)[0][:, 1:]
    return (d ** (-k)).mean().item()


def repulse(ctx):
    """repulse lowers the Coulomb energy, keeps shape, honours in_place, steps and show_pbar"""
    which = ctx.choice("manifold", ["s2", "so3"])
    n = ctx.randint("n", 2, 16)
    steps = ctx.choice("steps", [0, 1, 30])
    inp = ctx.flip("in_place")
    if which == "s2":
        g = s2.random_s2((n,))
        kw = dict(metric_fn=s2.geodesic_distance_s2, transform_fn=s2.spherical_to_euclid, dist_normalization_constant=pi, step_size=0.02)
    else:
        g = so3.random_euler(n)
        kw = dict(metric_fn=so3.geodesic_distance, transform_fn=so3.euler_to_quat, dist_normalization_constant=pi / 2, step_size=0.02)
    if ctx.flip("crowded", 0.5):
        # a bunched start that repulsion must spread out
        g = g[:1] + 0.25 * torch.randn_like(g)
    start = g.clone()
    e0 = energy(kw["transform_fn"](start), kw["metric_fn"], kw["dist_normalization_constant"])
    with torch.set_grad_enabled(not ctx.flip("no-grad", 0.3)):
        out = ctx.call("repulse", repulsion.repulse, g, steps=steps, show_pbar=False, in_place=inp, may_mutate=inp, **kw)
    ctx.check("repulse-shape", out.shape == start.shape and out.dtype == start.dtype)
    ctx.check("no-autograd-history", not out.requires_grad and out.grad_fn is None)
    ctx.check("caller-grad-flag", not g.requires_grad, "the caller's tensor is left requiring grad")
    if inp:
        ctx.check("in-place-shares", out.data_ptr() == g.data_ptr() and torch.equal(out, g))
    else:
        ctx.same("out-of-place-keeps-input", g, start)
        ctx.check("out-of-place-is-new", out.data_ptr() != g.data_ptr())
    if steps == 0:
        ctx.same("zero-steps-is-identity", out, start)
        return
    e1 = energy(kw["transform_fn"](out), kw["metric_fn"], kw["dist_normalization_constant"])
    ctx.check("steps-move-points", not torch.equal(out, start))
    if steps == 30 and e0 > 20:
        ctx.check("energy-decreases", e1 < e0, f"energy {e0:.3f} -> {e1:.3f}")


def columb(ctx):
    dt = ctx.choice("dtype", [torch.float64, torch.float32])
    d = (10 ** (torch.rand(*(ctx.size(1, 6) for _ in range(ctx.randint("ndim", 1, 3))), dtype=D) * 4 - 2)).to(dt)
    k = ctx.choice("k", [1, 2, 3, 4])
    t = 1e-10 if dt == D else 1e-5
    d = ctx.layout(d)
    e = ctx.call("columb_energy", repulsion.columb_energy, d, k)
    ctx.check("columb-dtype", e.dtype == dt, str(e.dtype))
    ctx.close("columb", e, 1 / d.double()**k, 0, t)
    ctx.close("columb", repulsion.columb_energy(d), 1 / d.double()**2, 0, t)


def bad_param(ctx):
    p = ctx.choice("param", ["quaternion", "angles", "", "mat"])
    ctx.raises("unknown-parameterisation-rejected", ValueError, so3.uniform_grid, ctx.rng.randint(1, 30), p, show_pbar=False)
    ctx.raises("unknown-parameterisation-rejected", ValueError, s2.uniform_grid_s2, ctx.rng.randint(1, 30), p, show_pbar=False)


FAMILIES = [
    Family("cached_sizes", cached_sizes, 24, 24, fixed=True),
    Family("so3_generated", so3_generated, 54, 700),
    Family("o3_grids", o3_grids, 60, 600),
    Family("sphere_grids", sphere_grids, 80, 1500),
    Family("repulse", repulse, 160, 3000),
    Family("columb", columb, 30, 300),
    Family("bad_param", bad_param, 8, 30),
]
