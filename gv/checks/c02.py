"""C02 actions on R^n"""
import math

import torch

from gconv.geometry import so2, so3, o2, o3
from gconv.gnn import functional as gF
from gv import refs
from gv.core import Family
from gv.groups import GROUPS
from gv.refs import D

PROPERTY = "C02"
G4 = ["so2", "o2", "so3", "o3"]


def setup(ctx):
    G = GROUPS[ctx.choice("group", G4)]
    dt = torch.float32 if ctx.flip("f32", 0.3) else D
    kind = ctx.choice("kind", G.KINDS + ("mixed",))
    t = 3e-5 if dt == torch.float32 else 1e-12
    return G, dt, kind, t


def points(ctx, G, dt):
    which = ctx.choice("points", ["cloud", "grid", "thin"])
    if which == "grid":
        k = ctx.size(1, 6, 33 if G.n == 2 else 12)
        ctx.describe(k=k)
        return (gF.create_grid_R2(k) if G.n == 2 else gF.create_grid_R3(k)).to(dt)
    dims = [ctx.rng.randint(1, 5) for _ in range(G.n)]
    if ctx.rng.random() < 0.04:  # thousands of points
        dims[ctx.rng.randrange(G.n)] = ctx.rng.randint(100, 1500)
    elif ctx.rng.random() < 0.1:  # longer than any kernel
        dims[ctx.rng.randrange(G.n)] = ctx.rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65])
    if which == "thin":
        dims[ctx.rng.randrange(G.n)] = 1
    ctx.describe(dims=dims)
    return (torch.randn(*dims, G.n, dtype=D) * 10 ** ctx.rng.uniform(-2, 2)).to(dt)


def apply_ref(M, P):
    return torch.einsum("...ij,xj->...xi", M, P.reshape(-1, P.shape[-1]).to(D)).reshape(*M.shape[:-2], *P.shape)


def action(ctx):
    """the action is linear, given by the element's matrix, homomorphic, unital, isometric"""
    G, dt, kind, t = setup(ctx)
    P = points(ctx, G, dt)
    scale = float(P.abs().max()) + 1e-30
    big = P.numel() > 400
    n = ctx.randint("n", 1, 6) if big else ctx.size(1, 6, 300, 0.05)
    ctx.describe(n=n)
    P = ctx.layout(P)
    h, g = ctx.layout(G.rand(ctx, n, kind if n <= 6 else "haar").to(dt)), G.rand(ctx, n, "mixed" if n <= 6 else "haar").to(dt)
    hP = ctx.call(f"{G.name}.act", G.act, h, P)
    ctx.check("action-shape", hP.shape == (n, *P.shape) and hP.dtype == dt, str(hP.shape))
    ctx.close("action-is-its-matrix", hP, apply_ref(G.acts(h), P), t * scale)
    ctx.close("unit-acts-trivially", G.act(G.identity().to(dt), P), P[None], t * scale)
    gh = G.act(G.mul(g, h), P)
    step = torch.stack([G.act(g[i : i + 1], hP[i])[0] for i in range(n)])
    ctx.close("action-homomorphism", gh, step, t * scale * 4)
    back = torch.stack([G.act(G.inv(h[i : i + 1]), hP[i])[0] for i in range(n)])
    ctx.close("inverse-undoes", back, P.expand(n, *P.shape), t * scale * 4)
    ctx.close("isometry", hP.norm(dim=-1), P.norm(dim=-1).expand(n, *P.shape[:-1]), t * scale * 4)
    if not big:
        f1, f2 = hP.reshape(n, -1, G.n).double(), P.reshape(-1, G.n).double()
        ctx.close("isometry", torch.cdist(f1, f1, compute_mode="donot_use_mm_for_euclid_dist"),
                  torch.cdist(f2, f2, compute_mode="donot_use_mm_for_euclid_dist").expand(n, -1, -1), t * scale * 8)
    # one element at a time gives the same as the batch
    for i in ctx.rng.sample(range(n), min(n, 6)):
        ctx.close("batch-independent", G.act(h[i : i + 1], P)[0], hP[i], t * scale)


def orientation(ctx):
    """the determinant of the action equals det(h) (+1 for the rotation groups)"""
    G, dt, kind, t = setup(ctx)
    n = ctx.randint("n", 2, 8)
    h = G.rand(ctx, n, kind).to(dt)
    B = torch.eye(G.n, dtype=dt).view(G.n, *([1] * (G.n - 1)), G.n)  # the basis vectors as a point grid
    M = ctx.call(f"{G.name}.act", G.act, h, B).reshape(n, G.n, G.n).mT.double()
    want = G.det(h).double().view(-1) if G.det is not None else torch.ones(n, dtype=D)
    got = torch.linalg.det(M)
    ctx.event("action-determinant", n)
    bad = (got - want).abs() > (1e-4 if dt == torch.float32 else 1e-10)
    if G.name == "o2" and bad.any():
        # recorded finding: coefficient -1 acts as the rotation -R(theta)
        cR = h[:, 0, None, None].double() * refs.rot2(h[:, 1].double())
        if bool((h[bad, 0] == -1).all()) and bool(((M - cR).abs() < 1e-4).all()):
            ctx.known_finding("o2-coefficient-acts-as-rotation",
                              "o2 elements with coefficient -1 act as -R(theta) (determinant +1), not as a reflection")
            bad = torch.zeros_like(bad)
    ctx.check("action-determinant", not bad.any(), "the action has the wrong determinant", h=h, got=got, want=want)


def batched(ctx):
    """so3/o3 actions take any batch shape, so2 matrices act like angles"""
    dt = torch.float32 if ctx.flip("f32", 0.3) else D
    t = 3e-5 if dt == torch.float32 else 1e-12
    name = ctx.choice("group", ["so3", "o3", "so2matrix"])
    n, m = ctx.randint("n", 1, 4), ctx.randint("m", 1, 4)
    if name == "so2matrix":
        th = GROUPS["so2"].rand(ctx, n, "mixed").to(dt)
        w, h = ctx.size(1, 4, 33), ctx.size(1, 5, 33)
        P = torch.randn(w, w if ctx.flip("square") else h, 2, dtype=dt)
        M = ctx.call("so2.angle_to_matrix", so2.angle_to_matrix, th)
        ctx.close("angle-matrix", M, refs.rot2(th.double()[:, 0]), t * 40)
        ctx.close("matrix-action", ctx.call("so2.matrix-act", so2.left_apply_matrix_to_R2, M, P), apply_ref(M.double(), P), t * 10)
        ctx.close("angle-action-is-matrix-action", so2.left_apply_angle_to_R2(th, P), so2.left_apply_matrix_to_R2(M, P), t * 10)
        ctx.close("matrix-inverse", so2.inverse_matrix(M), so2.angle_to_matrix(so2.inverse_angle(th)), t * 10)
        v = ctx.call("so2.angle_to_euclid", so2.angle_to_euclid, th)
        ctx.close("euclid-is-image-of-e1", v, M[:, :, 0], t * 10)
        thb = torch.randn(n, m, 1, dtype=dt)
        ctx.close("angle-matrix", so2.angle_to_matrix(thb), refs.rot2(thb.double()[..., 0]), t * 10)
        ctx.close("angle-euclid", so2.angle_to_euclid(thb), refs.rot2(thb.double()[..., 0])[..., 0], t * 10)
        return
    G = GROUPS[name]
    dims = [2, m, n] if ctx.flip("few-points") else [ctx.rng.randint(1, 6) for _ in range(3)]
    if ctx.flip("cube", 0.3):
        dims = dims[:1] * 3
    P = torch.randn(*dims, 3, dtype=dt)
    b = (n, m) if ctx.flip("two-axes", 0.6) else tuple(ctx.rng.randint(1, 3) for _ in range(ctx.rng.randint(1, 4)))
    ctx.describe(dims=dims, batch=b)
    h = G.rand(ctx, math.prod(b), "mixed").to(dt)
    P, hb = ctx.layout(P), ctx.layout(h.view(*b, *G.shape))
    got = ctx.call(f"{G.name}.act", G.act, hb, P)
    ctx.check("action-shape", got.shape == (*b, *P.shape), str(got.shape))
    ctx.close("batched-action", got, G.act(h, P).view(*b, *P.shape), t * 4)
    ctx.close("batched-action", got, apply_ref(G.acts(hb), P), t * 10)
    one = ctx.call(f"{G.name}.act", G.act, h[0], P)
    ctx.close("unbatched-action", one, got[(0,) * len(b)], t * 4)


FAMILIES = [
    Family("action", action, 700, 20000),
    Family("orientation", orientation, 300, 6000),
    Family("batched", batched, 300, 8000),
]
