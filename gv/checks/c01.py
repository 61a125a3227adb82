"""C01 group laws"""
import math

import torch

from gv.core import Family
from gv.groups import GROUPS, SO3Q, broadcastable
from gv.refs import D

PROPERTY = "C01"


def tol(dtype, scale=1.0):
    return (2e-5 if dtype == torch.float32 else 1e-12) * scale


def setup(ctx):
    G = GROUPS[ctx.choice("group", GROUPS)]
    dt = torch.float32 if ctx.flip("f32", 0.35) else D
    kind = ctx.choice("kind", G.KINDS + ("mixed",))
    return G, dt, kind


def laws(ctx):
    """elementwise product: closure, associativity, unit, inverse, homomorphism, shapes, broadcasting"""
    G, dt, kind = setup(ctx)
    n = ctx.size(1, 7, 700, 0.1)
    ctx.describe(n=n)
    bulk = "haar" if n > 7 else "mixed"
    a, b, c = (ctx.layout(G.rand(ctx, n, k).to(dt)) for k in (kind, bulk, bulk))
    if ctx.flip("same-object", 0.05):
        b = c = a
    e = G.identity().to(dt)
    t = tol(dt, 10)
    rep = G.rep

    def mul(x, y):
        return ctx.call(f"{G.name}.mul", G.mul, x, y)

    def inv(x):
        return ctx.call(f"{G.name}.inverse", G.inv, x)

    ab = mul(a, b)
    ctx.check("product-shape-dtype", ab.shape == a.shape and ab.dtype == dt, f"{ab.shape} {ab.dtype}")
    ctx.close("product-is-composition", rep(ab), rep(a) @ rep(b), t)
    ctx.close("associativity", rep(mul(ab, c)), rep(mul(a, mul(b, c))), t)
    ctx.close("unit", rep(mul(e, a)), rep(a), t)
    ctx.close("unit", rep(mul(a, e)), rep(a), t)
    ia = inv(a)
    ctx.check("inverse-shape-dtype", ia.shape == a.shape and ia.dtype == dt)
    eye = torch.eye(rep(e).shape[-1], dtype=D).expand(n, -1, -1)
    ctx.close("inverse", rep(mul(a, ia)), eye, t)
    ctx.close("inverse", rep(mul(ia, a)), eye, t)
    ctx.close("inverse-involution", rep(inv(ia)), rep(a), t)
    ctx.close("anti-homomorphism", rep(inv(ab)), rep(mul(inv(b), inv(a))), t)
    # the group elements stay in the parameterisation of the group
    if G.name in ("o2", "o3"):
        ctx.check("coefficients-are-signs", (ab[:, 0].abs() == 1).all() and (ia[:, 0] == a[:, 0]).all())
    # broadcasting: one element against many
    one = a[:1]
    ctx.close("broadcast", rep(mul(one, b)), rep(a[:1]) @ rep(b), t)
    ctx.close("broadcast", rep(mul(b, one)), rep(b) @ rep(a[:1]), t)
    # batch dimensions
    k = ctx.randint("batch", 1, 4)
    p = ctx.layout(G.rand(ctx, k * n, bulk).to(dt).view(k, n, *G.shape))
    q = ctx.layout(G.rand(ctx, n, bulk).to(dt))
    ctx.close("batched-product", rep(mul(p, q)), rep(p) @ rep(q), t)
    ctx.close("batched-product", rep(mul(p[:, :1], q)), rep(p[:, :1]) @ rep(q), t)
    sa, sb = broadcastable(ctx)
    p, q = (ctx.layout(G.rand(ctx, math.prod(s), "mixed").to(dt).view(*s, *G.shape)) for s in (sa, sb))
    pq = mul(p, q)
    ctx.check("broadcast-shape", pq.shape == (*torch.broadcast_shapes(sa, sb), *G.shape) and pq.dtype == dt, f"{pq.shape} {pq.dtype}")
    ctx.close("broadcast", rep(pq), rep(p) @ rep(q), t)
    p = ctx.layout(G.rand(ctx, k * n, bulk).to(dt).view(k, n, *G.shape))
    ctx.close("batched-inverse", rep(mul(inv(p), p)), eye.expand(k, -1, -1, -1), t)


def pairwise(ctx):
    """left_apply_to_*: every element of the first grid applied to every element of the second"""
    G, dt, kind = setup(ctx)
    if G.pair is None:
        G = GROUPS[ctx.choice("group", ["so2", "so3", "o2", "o3"])]
        kind = "mixed"
    n, m = ctx.size(1, 7, 260, 0.1), ctx.size(1, 7, 260, 0.1)
    if ctx.rng.random() < 0.02:
        n, m = 3, 3000
    ctx.describe(n=n, m=m)
    a = ctx.layout(G.rand(ctx, n, "haar" if n > 7 else kind).to(dt))
    b = ctx.layout(G.rand(ctx, m, "haar" if m > 7 else "mixed").to(dt))
    if ctx.flip("same-object", 0.1):
        b, m = a, n
    out = ctx.call(f"{G.name}.pairwise", G.pair, a, b)
    ctx.check("pairwise-shape", out.shape == (n, m, *G.shape) and out.dtype == dt, str(out.shape))
    ctx.close("pairwise-order", G.rep(out), G.rep(a)[:, None] @ G.rep(b)[None], tol(dt, 10))
    for i in ctx.rng.sample(range(n), min(n, 7)):
        ctx.close("pairwise-vs-elementwise", G.rep(out[i]), G.rep(G.mul(a[i : i + 1], b)), tol(dt, 10))
    # left translation is a bijection that cancels: (g a_i)^-1 (g b_j) == a_i^-1 b_j
    g = G.rand(ctx, 1, "mixed").to(dt)
    ga, gb = G.mul(g, a), G.mul(g, b)
    ctx.close("left-cancellation", G.rep(G.pair(G.inv(ga), gb)), G.rep(G.pair(G.inv(a), b)), tol(dt, 20))


def words(ctx):
    """long words: g1 g2 ... gk, then undone by the inverses in reverse order"""
    G, dt, kind = setup(ctx)
    dt = D
    k = ctx.randint("length", 2, 60)
    gs = [G.rand(ctx, 2, "mixed") for _ in range(k)]
    acc, model = G.identity().expand(2, *G.shape).clone(), None
    model = G.rep(acc)
    for i, g in enumerate(gs):
        acc = G.mul(g, acc) if i % 2 else G.mul(acc, g)
        model = G.rep(g) @ model if i % 2 else model @ G.rep(g)
        ctx.close("word-tracks-model", G.rep(acc), model, 1e-11)
    for i, g in reversed(list(enumerate(gs))):
        acc = G.mul(G.inv(g), acc) if i % 2 else G.mul(acc, G.inv(g))
    ctx.close("word-undone", G.rep(acc), G.rep(G.identity().expand(2, *G.shape)), 1e-10)


def dets(ctx):
    """det is the sign of the coset and multiplicative"""
    G = GROUPS[ctx.choice("group", ["o2", "o3"])]
    dt = torch.float32 if ctx.flip("f32", 0.3) else D
    n, m = ctx.size(1, 6, 200), ctx.randint("m", 1, 5)
    a, b = (ctx.layout(G.rand(ctx, n, "haar" if n > 6 else "mixed").to(dt)) for _ in range(2))
    d = ctx.call(f"{G.name}.det", G.det, a)
    ctx.same("det-is-coefficient", d, a[:, :1])
    ctx.same("det-multiplicative", G.det(G.mul(a, b)), G.det(a) * G.det(b))
    ctx.same("det-inverse", G.det(G.inv(a)), G.det(a))
    p = G.rand(ctx, n * m, "haar" if n > 6 else "mixed").to(dt).view(n, m, *G.shape)
    ctx.same("det-batched", G.det(p), p[..., :1])


FAMILIES = [
    Family("laws", laws, 700, 20000),
    Family("pairwise", pairwise, 500, 14000),
    Family("words", words, 60, 2000),
    Family("dets", dets, 120, 2000),
]
