"""C04 geodesic distances are invariant metrics"""
import math

import torch

from gconv.geometry import so2, so3
from gconv.geometry.groups import s2
from gv import refs
from gv.core import Family
from gv.groups import KINDS2, KINDS3, broadcastable, quats, rot2angles, rot3
from gv.refs import D, pi

PROPERTY = "C04"

# distances are clamped at acos(1 - eps) by documentation (eps)
FLOOR = {"so3": 5e-4, "s2": 5e-4, "so2": 2e-6, "so2euclid": 5e-4}


def sphere(ctx, n):
    x = torch.randn(n, 3, dtype=D)
    return x / x.norm(dim=-1, keepdim=True)


def draw(ctx, name, n):
    if name == "so3":
        return quats(ctx, n, ctx.rng.choice(KINDS3 + ("mixed",)))
    if name == "so2":
        return rot2angles(ctx, n, ctx.rng.choice(KINDS2 + ("mixed",)))
    if name == "so2euclid":
        return refs.rot2(rot2angles(ctx, n, "mixed")[:, 0])[..., 0]
    return sphere(ctx, n)


DIST = {"so3": so3.geodesic_distance, "so2": so2.geodesic_distance, "so2euclid": so2.geodesic_distance_euclid,
        "s2": s2.geodesic_distance_s2}
MAX = {"so3": pi / 2, "so2": pi, "so2euclid": pi, "s2": pi}


def exact(name, a, b):
    """accurate reference distances (atan2 forms), before clamping"""
    a, b = a.to(D), b.to(D)
    if name == "so3":
        d = refs.quat_mul(a * torch.tensor([1.0, -1, -1, -1], dtype=D), b)
        return torch.atan2(d[..., 1:].norm(dim=-1), d[..., 0].abs())
    if name == "so2":
        d = a[..., 0] - b[..., 0]
        return torch.atan2(torch.sin(d), torch.cos(d)).abs()
    if name == "so2euclid":
        return torch.atan2((a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]).abs(), (a * b).sum(-1))
    a, b = torch.broadcast_tensors(a, b)
    return torch.atan2(torch.linalg.cross(a, b).norm(dim=-1), (a * b).sum(-1))


def metric(ctx):
    name = ctx.choice("space", DIST)
    f = DIST[name]
    dt = torch.float32 if ctx.flip("f32", 0.35) else D
    n, m = ctx.size(1, 6, 300, 0.05), ctx.size(1, 6, 300, 0.05)
    ctx.describe(n=n, m=m)
    a, b = ctx.layout(draw(ctx, name, n).to(dt)), ctx.layout(draw(ctx, name, m).to(dt))
    t = (1.2e-3 if dt == torch.float32 else 1e-7) + FLOOR[name]
    if dt == torch.float32 and name == "so2":
        t = 2e-3
    d = ctx.call("distance:" + name, f, a[:, None], b[None])
    ctx.check("distance-shape", d.shape == (n, m) and d.dtype == dt, str(d.shape))
    want = exact(name, a[:, None], b[None])
    ctx.close("geodesic-angle", d, want, t)
    mid = (want > 0.1) & (want < MAX[name] - 0.1) if name != "so3" else want > 0.1
    if mid.any():
        ctx.close("geodesic-angle-away-from-clamp", d[mid], want[mid], 3e-5 if dt == torch.float32 else 1e-9)
    ctx.close("symmetry", f(b[:, None], a[None]), d.T, 1e-6 if dt == torch.float32 else 1e-12)
    ctx.check("range", (d >= 0).all() and (d <= MAX[name] + 1e-6).all(), "outside [0, max]", d=d)
    z = f(a, a)
    ctx.check("distance-to-itself", (z <= t).all(), "not (nearly) zero", z=z)
    # elementwise and pairwise agree
    k = min(n, m)
    ctx.close("broadcast", f(a[:k], b[:k]), d[:k, :k].diagonal(), 1e-6 if dt == torch.float32 else 1e-12)
    sa, sb = broadcastable(ctx)
    p, q = (ctx.layout(draw(ctx, name, math.prod(s)).to(dt).unflatten(0, s) if s else draw(ctx, name, 1).to(dt)[0]) for s in (sa, sb))
    e = ctx.call("distance:" + name, f, p, q)
    ctx.check("broadcast-shape", e.shape == torch.broadcast_shapes(sa, sb) and e.dtype == dt, f"{e.shape} {e.dtype}")
    ctx.close("broadcast-distance", e, exact(name, p, q), t)
    c = draw(ctx, name, 1).to(dt)
    ctx.check("triangle", (d <= f(a, c)[:, None] + f(c, b)[None] + 2 * t).all(), "triangle inequality", d=d)
    ctx.event("distance-values", n * m)


def invariance(ctx):
    """left and right translations, inversion and q/-q leave the distance alone"""
    name = ctx.choice("space", ["so3", "so2", "s2"])
    f = DIST[name]
    n = ctx.randint("n", 1, 6)
    a, b = draw(ctx, name, n), draw(ctx, name, n)
    d = ctx.call("distance:" + name, f, a, b)
    t = 1e-8
    if name == "so3":
        g = quats(ctx, 1, "mixed")
        ctx.close("left-invariant", f(so3.left_apply_quat(g, a), so3.left_apply_quat(g, b)), d, t)
        ctx.close("right-invariant", f(so3.left_apply_quat(a, g), so3.left_apply_quat(b, g)), d, t)
        ctx.close("inverse-invariant", f(so3.quat_inverse(a), so3.quat_inverse(b)), d, t)
        ctx.close("sign-invariant", f(-a, b), d, 1e-14)
        ctx.close("sign-invariant", f(a, -b), d, 1e-14)
        ctx.close("half-the-rotation-angle", d, refs.rot_angle(refs.quat_mat(a).mT @ refs.quat_mat(b)) / 2, FLOOR["so3"])
    elif name == "so2":
        g = rot2angles(ctx, 1, "mixed")
        ctx.close("left-invariant", f(so2.left_apply_angle(g, a), so2.left_apply_angle(g, b)), d, 1e-7)
        ctx.close("inverse-invariant", f(so2.inverse_angle(a), so2.inverse_angle(b)), d, 1e-7)
        ctx.close("period", f(a + 2 * pi, b - 4 * pi), d, 1e-7)
        ctx.close("euclid-agrees", so2.geodesic_distance_euclid(so2.angle_to_euclid(a), so2.angle_to_euclid(b)), d, FLOOR["s2"])
    else:
        R = rot3(ctx, 1, "mixed")[0]
        ctx.close("rotation-invariant", f(a @ R.T, b @ R.T), d, 1e-8)


def neighbours(ctx):
    """nearest_neighbour_distance(grid)[i] = min over j != i of the distance"""
    name = ctx.choice("space", ["so3", "so3matrix", "so2"])
    dt = torch.float32 if ctx.flip("f32", 0.4) else D
    n = ctx.size(2, 14, 300, 0.06)
    if ctx.flip("huge", 0.03):
        n = ctx.rng.randint(400, 1300)
    ctx.describe(n=n)
    kind = ctx.choice("grid", ["random", "uniform", "clustered", "duplicate"])
    if name == "so2":
        g = torch.rand(n, 1, dtype=D) * 2 * pi
        if kind == "uniform":
            g = so2.uniform_grid(n).to(D)
        if kind == "clustered":
            g = torch.cat((g[:1] + 0.02 * torch.randn(n - n // 2, 1, dtype=D), g[n - n // 2 :]))
        if kind == "duplicate":
            g[-1] = g[0]
        g = ctx.layout(g.to(dt))
        got = ctx.call("so2.nearest_neighbour_distance", so2.nearest_neighbour_distance, g)
        ex = exact("so2", g[:, None], g[None])
    else:
        q = quats(ctx, n, "haar")
        if kind == "uniform":
            q = so3.uniform_grid(min(n, 24), "quat").to(D)
            n = len(q)
            q = q / q.norm(dim=-1, keepdim=True)
        if kind == "clustered":
            h = n // 2
            q[:h] = refs.mat_quat(refs.rodrigues(0.05 * torch.randn(h, 3, dtype=D)) @ refs.quat_mat(q[:1]))
        if kind == "duplicate":
            q[-1] = -q[0]
        g = (q if name == "so3" else refs.quat_mat(q)).to(dt)
        g = ctx.layout(g)
        got = ctx.call("so3.nearest_neighbour_distance", so3.nearest_neighbour_distance, g)
        ex = exact("so3", q[:, None], q[None])
    ex = ex + torch.eye(n, dtype=D) * 100
    want = ex.min(-1)[0]
    ctx.check("nn-shape", got.shape == (n,), str(got.shape))
    ctx.close("nearest-neighbour", got, want, 2.5e-3 if dt == torch.float32 else 6e-4)
    far = (want > 0.05) & (want < (pi - 0.05 if name == "so2" else 2.0))
    if far.any():
        ctx.close("nearest-neighbour-precise", got[far], want[far], 1e-4 if dt == torch.float32 else 1e-7)
    p = torch.randperm(n)
    f = so2.nearest_neighbour_distance if name == "so2" else so3.nearest_neighbour_distance
    ctx.close("nn-permutes", f(g[p]), got[p], 2e-3 if dt == torch.float32 else 6e-4)


FAMILIES = [
    Family("metric", metric, 700, 20000),
    Family("invariance", invariance, 400, 10000),
    Family("neighbours", neighbours, 400, 10000),
]
