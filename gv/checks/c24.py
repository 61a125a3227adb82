"""C24 the sphere: spherical and Euclidean coordinates name the same point, sphere points lift to rotations"""
import math

import torch

from gconv.geometry import so3
from gconv.geometry.groups import s2
from gv import refs
from gv.core import Family
from gv.groups import broadcastable, rot3
from gv.refs import D, pi

PROPERTY = "C24"


def ref_point(g):
    b, c = g.double().unbind(-1)
    return torch.stack((torch.sin(b) * torch.cos(c), torch.sin(b) * torch.sin(c), torch.cos(b)), -1)


def batch(ctx):
    s = ctx.choice("batch", [(1,), (7,), (2, 3), (4, 1, 2), ()])
    if ctx.rng.random() < 0.05:
        s = (ctx.size(7, 8, 1030, 1.0),) if ctx.rng.random() < 0.7 else (3, ctx.size(7, 8, 130, 1.0))
        ctx.describe(batch=s)
    return s, int(math.prod(s))


def points(ctx, n, kind):
    """unit vectors, float64"""
    if kind == "uniform":
        x = torch.randn(n, 3, dtype=D)
    elif kind == "pole":
        x = torch.randn(n, 3, dtype=D) * 10 ** (-torch.rand(n, 1, dtype=D) * 9)
        x[:, 2] = torch.randint(0, 2, (n,)) * 2.0 - 1
    elif kind == "exact-pole":
        x = torch.zeros(n, 3, dtype=D)
        x[:, 2] = torch.randint(0, 2, (n,)) * 2.0 - 1
    elif kind == "axes":
        x = torch.eye(3, dtype=D)[torch.randint(0, 3, (n,))] * (torch.randint(0, 2, (n, 1)) * 2.0 - 1)
    elif kind == "equator":
        x = torch.randn(n, 3, dtype=D)
        x[:, 2] = torch.randn(n, dtype=D) * 1e-9
    else:  # seam: gamma around pi
        x = torch.randn(n, 3, dtype=D)
        x[:, 0], x[:, 1] = -x[:, 0].abs() - 0.1, torch.randn(n, dtype=D) * 1e-9
    return x / x.norm(dim=-1, keepdim=True)


KINDS = ("uniform", "pole", "exact-pole", "axes", "equator", "seam")


def conversions(ctx):
    """euclid -> spherical -> euclid is the identity, everywhere; angles in their documented range"""
    s, n = batch(ctx)
    dt = torch.float32 if ctx.flip("f32") else D
    t = 2e-6 if dt == torch.float32 else 1e-13
    kind = ctx.choice("kind", KINDS)
    x = ctx.layout(points(ctx, n, kind).to(dt).view(*s, 3))
    g = ctx.call("euclid_to_spherical", s2.euclid_to_spherical, x)
    ctx.check("spherical-shape", g.shape == (*s, 2) and g.dtype == dt, f"{g.shape} {g.dtype}")
    ctx.close("same-point", ref_point(g), x, t)
    ctx.check("beta-range", ((g[..., 0] >= 0) & (g[..., 0] <= pi + 1e-6)).all(), str(g[..., 0]))
    ctx.check("gamma-range", (g[..., 1].abs() <= pi + 1e-6).all(), str(g[..., 1]))
    y = ctx.call("spherical_to_euclid", s2.spherical_to_euclid, g)
    ctx.check("euclid-shape", y.shape == (*s, 3) and y.dtype == dt)
    ctx.close("round-trip", y, x, t)


def formula(ctx):
    """spherical -> euclid for arbitrary angles (any winding): the documented parameterisation"""
    s, n = batch(ctx)
    dt = torch.float32 if ctx.flip("f32") else D
    scale = ctx.choice("scale", [1e-6, 1.0, 4.0, 30.0])
    g = ctx.layout((torch.randn(*s, 2, dtype=D) * scale).to(dt))
    x = ctx.call("spherical_to_euclid", s2.spherical_to_euclid, g)
    ctx.close("sin-cos-formula", x, ref_point(g), 2e-6 if dt == torch.float32 else 1e-13)
    ctx.close("on-the-sphere", x.norm(dim=-1), torch.ones(s), 2e-6 if dt == torch.float32 else 1e-13)
    b = ctx.call("euclid_to_spherical", s2.euclid_to_spherical, x)
    ctx.close("canonical-angles-same-point", ref_point(b), x, 4e-6 if dt == torch.float32 else 1e-13)
    # canonical input angles are recovered exactly (away from the poles, where gamma is meaningless)
    c = torch.stack((torch.rand(s, dtype=D) * (pi - 0.2) + 0.1, (torch.rand(s, dtype=D) * 2 - 1) * 3.1), -1).to(dt)
    r = s2.euclid_to_spherical(s2.spherical_to_euclid(c))
    ctx.close("angles-recovered", r, c, 2e-5 if dt == torch.float32 else 1e-11)


def lifts(ctx):
    """spherical_to_euler(g) rotates the north pole to the point, alpha is 0 or -gamma"""
    n = ctx.size(1, 9, 300, 0.06)
    ctx.describe(n=n)
    dt = torch.float32 if ctx.flip("f32") else D
    t = 4e-6  # euler_to_matrix clips entries below its documented eps = 1e-6
    kind = ctx.choice("kind", KINDS)
    x = points(ctx, n, kind).to(dt)
    g = ctx.layout(s2.euclid_to_spherical(x))
    north = torch.tensor([0, 0, 1.0], dtype=D)
    for name, f in (("spherical_to_euler", s2.spherical_to_euler), ("spherical_to_euler_neg_gamma", s2.spherical_to_euler_neg_gamma)):
        e = ctx.call(name, f, g).detach()
        ctx.check("euler-shape", e.shape == (n, 3) and e.dtype == dt, f"{e.shape}")
        ctx.same("beta-gamma-kept", e[:, 1:], g.detach())
        ctx.same("alpha", e[:, 0], torch.zeros(n, dtype=dt) if name == "spherical_to_euler" else -g.detach()[:, 1])
        M = so3.euler_to_matrix(e).double()
        ctx.close("library-matrix", M, refs.euler_zyz(e), t * 3)
        ctx.close("pole-to-point", M @ north, x, t * 3)
        Q = refs.quat_mat(so3.euler_to_quat(e))
        ctx.close("quat-to-point", Q @ north, x, t * 3)
    # alpha only twists about the point's own axis
    A = so3.euler_to_matrix(s2.spherical_to_euler(g)).double()
    B = so3.euler_to_matrix(s2.spherical_to_euler_neg_gamma(g)).double()
    ctx.close("twist-only", A.mT @ B, refs.axis_rot(2, -g[:, 1].double()), t * 6)


def isometry(ctx):
    """distances: symmetric, rotation invariant, additive along great circles"""
    dt = torch.float32 if ctx.flip("f32", 0.3) else D
    n = ctx.size(1, 8, 260, 0.06)
    ctx.describe(n=n)
    x, y = points(ctx, n, ctx.choice("kx", KINDS)).to(dt), points(ctx, n, ctx.choice("ky", KINDS)).to(dt)
    R = rot3(ctx, 1, ctx.rng.choice(("mixed", "haar")))[0].to(dt)
    eps = 1e-7
    t = 1.2e-3
    d = ctx.call("geodesic_distance_s2", s2.geodesic_distance_s2, x, y, eps)
    want = 2 * torch.atan2((x - y).double().norm(dim=-1), (x + y).double().norm(dim=-1))
    ctx.close("angle", d, want, t)
    ctx.same("symmetric", d, s2.geodesic_distance_s2(y, x, eps))
    ctx.close("rotation-invariant", s2.geodesic_distance_s2(x @ R.mT, y @ R.mT, eps), d, t)
    ctx.close("antipodal-complement", s2.geodesic_distance_s2(x, -y, eps), pi - d, t)
    full = ctx.call("geodesic_distance_s2", s2.geodesic_distance_s2, ctx.layout(x)[:, None], ctx.layout(y), eps)
    ctx.check("pairwise-shape", full.shape == (n, n))
    ctx.close("pairwise-diagonal", full.diagonal(), d, t)
    sa, sb = broadcastable(ctx)
    p, q = (ctx.layout(points(ctx, math.prod(s), "uniform").to(dt).view(*s, 3)) for s in (sa, sb))
    e = ctx.call("geodesic_distance_s2", s2.geodesic_distance_s2, p, q, eps)
    ctx.check("broadcast-shape", e.shape == torch.broadcast_shapes(sa, sb), str(e.shape))
    u, v = (w.double() for w in torch.broadcast_tensors(p, q))
    ctx.close("angle", e, 2 * torch.atan2((u - v).norm(dim=-1), (u + v).norm(dim=-1)), t)


def sampled(ctx):
    """random points are spherical coordinates of points on the sphere; seeds reproduce them"""
    shape = ctx.choice("shape", [(1,), (40,), (3, 5), (2, 1, 3)])
    s = ctx.rng.randrange(2**31)
    torch.manual_seed(s)
    g = ctx.call("random_s2", s2.random_s2, shape)
    ctx.check("random-shape", g.shape == (*shape, 2))
    ctx.check("ranges", ((g[..., 0] >= 0) & (g[..., 0] <= pi + 1e-6) & (g[..., 1].abs() <= pi + 1e-6)).all())
    torch.manual_seed(s)
    ctx.same("seed-reproduces", s2.random_s2(shape), g)


def parameterizations(ctx):
    """one grid, five names: the same seed gives the same points in every parameterisation"""
    n = ctx.randint("n", 1, 12)
    neg = ctx.flip("neg")
    steps = ctx.choice("steps", [0, 3, 20])
    seed = ctx.rng.randrange(2**31)
    out = {}
    for p in ("spherical", "euclidean", "euler", "matrix", "quat"):
        torch.manual_seed(seed)
        out[p] = ctx.call("uniform_grid_s2", s2.uniform_grid_s2, n, p if ctx.rng.random() < 0.7 else p.upper(),
                          set_alpha_as_neg_gamma=neg, steps=steps, show_pbar=False)
        ctx.check("no-autograd-history", not out[p].requires_grad and out[p].grad_fn is None)
    x = ref_point(out["spherical"])
    north = torch.tensor([0, 0, 1.0], dtype=D)
    ctx.close("same-points", out["euclidean"], x, 4e-6)
    ctx.close("same-points", refs.euler_zyz(out["euler"]) @ north, x, 1e-5)
    ctx.close("same-points", out["matrix"].double() @ north, x, 1e-5)
    ctx.close("same-points", refs.quat_mat(out["quat"]) @ north, x, 1e-5)
    ctx.close("same-rotations", out["matrix"], refs.euler_zyz(out["euler"]), 1e-5)
    ctx.close("same-rotations", refs.quat_mat(out["quat"]), refs.euler_zyz(out["euler"]), 1e-5)
    ctx.close("alpha", out["euler"][:, 0], -out["euler"][:, 2] if neg else torch.zeros(n), 1e-6)
    ctx.close("default-is-euclidean", x.norm(dim=-1), torch.ones(n), 1e-6)
    torch.manual_seed(seed)
    ctx.same("default-is-euclidean", s2.uniform_grid_s2(n, set_alpha_as_neg_gamma=neg, steps=steps, show_pbar=False), out["euclidean"])


FAMILIES = [
    Family("conversions", conversions, 500, 12000),
    Family("formula", formula, 300, 8000),
    Family("lifts", lifts, 400, 10000),
    Family("isometry", isometry, 400, 10000),
    Family("sampled", sampled, 100, 1000),
    Family("parameterizations", parameterizations, 60, 1200),
]
