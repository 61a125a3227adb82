"""C05 named finite subgroups"""
import torch

from gconv.geometry import o2, so2, so3
from gv import refs
from gv.core import Family
from gv.refs import D, pi

PROPERTY = "C05"

# order of the group and number of elements of each order
GROUPS = {
    "identity": (so3.identity, {1: 1}),
    "klein": (so3.klein_group, {1: 1, 2: 3}),
    "tetrahedral": (so3.tetrahedral, {1: 1, 2: 3, 3: 8}),
    "octahedral": (so3.octahedral, {1: 1, 2: 9, 3: 8, 4: 6}),
    "icosahedral": (so3.icosahedral, {1: 1, 2: 15, 3: 20, 5: 24}),
}
SUB = {"identity": ["klein", "tetrahedral", "octahedral", "icosahedral"], "klein": ["tetrahedral", "octahedral", "icosahedral"],
       "tetrahedral": ["octahedral", "icosahedral"]}


def index_of(ctx, M, prods, what, t):
    """index in M of every matrix of prods; fails when one is missing"""
    d = (prods[..., None, :, :] - M).abs().amax((-1, -2))
    v, i = d.min(-1)
    ctx.event("closure", v.numel())
    if not (v < t).all():
        ctx.fail("closure", f"{what}: a product is not in the set (off by {v.max():.3g})")
    return i


def check_group(ctx, q, orders, t=1e-5):
    n = sum(orders.values())
    ctx.check("group-size", q.shape == (n, 4), str(q.shape))
    ctx.close("unit-quaternions", q.norm(dim=-1), torch.ones(n), t)
    M = refs.quat_mat(q)
    d = (M[:, None] - M[None]).abs().amax((-1, -2)) + 10 * torch.eye(n, dtype=D)
    ctx.check("distinct-rotations", (d > 1e-2).all(), "an element is listed twice")
    # products as the library computes them
    prod = ctx.call("left_apply_quat", so3.left_apply_quat, q[:, None], q[None])
    T = index_of(ctx, M, refs.quat_mat(prod), "products", t * 10)
    e = index_of(ctx, M, torch.eye(3, dtype=D)[None], "identity", t)[0]
    inv = index_of(ctx, M, refs.quat_mat(so3.quat_inverse(q)), "inverses", t * 10)
    a = torch.arange(n)
    ctx.check("inverse", (T[a, inv] == e).all() and (T[inv, a] == e).all())
    ctx.check("latin-square", (T.sort(0)[0] == a[:, None]).all() and (T.sort(1)[0] == a).all())
    hist = {}
    for i in range(n):
        k, x = 1, i
        while x != e and k <= n:
            x, k = int(T[x, i]), k + 1
        hist[k] = hist.get(k, 0) + 1
    ctx.check("element-orders", hist == orders, f"{hist} instead of {orders}")
    # any left coset is distinct from, or equal to, the group
    P = torch.randperm(n)
    ctx.check("latin-square", (T[P][:, P].sort(1)[0] == a).all())
    # the same elements as matrices are a group under the matrix product
    R = so3.quat_to_matrix(q)
    index_of(ctx, M, so3.left_apply_to_matrix(R, R).double(), "matrix products", t * 10)
    return M


def polyhedral(ctx):
    names = list(GROUPS)
    name = names[ctx.index % len(names)]
    f, orders = GROUPS[name]
    dt = torch.float32 if (ctx.index // len(names)) % 2 else D
    ctx.describe(group=name, dtype=str(dt))
    q = ctx.call("so3." + name, f)
    M = check_group(ctx, q.to(dt), orders, 2e-6 if dt == D else 1e-5)
    for big in SUB.get(name, []):
        B = refs.quat_mat(GROUPS[big][0]())
        index_of(ctx, B, M, f"{name} in {big}", 1e-5)
    # a caller's edits stay with the caller
    q.mul_(0).add_(7)
    ctx.check("fresh-result", not torch.equal(f(), q), "the next call returns the edited tensor")
    check_group(ctx, f(), orders)


def cyclic(ctx):
    n = ctx.randint("n", 1, 40)
    ax = ctx.choice("axis", "xyzXYZ")
    i = "xyz".index(ax.lower())
    named = ctx.flip("named")
    f = getattr(so3, "cyclic_" + ax.lower())
    q = ctx.call("so3.cyclic", f, n) if named else ctx.call("so3.cyclic", so3.cyclic, n, ax)
    th = torch.arange(n, dtype=D) * 2 * pi / n
    ctx.close("rotation-about-the-axis", refs.quat_mat(q), refs.axis_rot(i, th), 2e-6)
    orders = {}
    import math

    for k in range(n):
        o = n // math.gcd(n, k) if k else 1
        orders[o] = orders.get(o, 0) + 1
    check_group(ctx, q, orders)


def long_cyclic(ctx):
    """every order up to several hundred, about every axis: the right number of distinct
    elements in the right places (rounding of the angle step must not add or drop one)"""
    n = ctx.index + 1
    ctx.describe(n=n)
    th = torch.arange(n, dtype=D) * 2 * pi / n
    for i, ax in enumerate("xyz"):
        q = ctx.call("so3.cyclic", so3.cyclic, n, ax)
        ctx.check("group-size", q.shape == (n, 4), f"{tuple(q.shape)} for order {n}")
        ctx.close("rotation-about-the-axis", refs.quat_mat(q), refs.axis_rot(i, th), 4e-6)
    g = ctx.call("so2.uniform_grid", so2.uniform_grid, n)
    ctx.check("grid-shape", g.shape == (n, 1), str(g.shape))
    ctx.close("equispaced", g[:, 0], torch.arange(n, dtype=D) * 2 * pi / n, 2e-6)
    m = (ctx.index * 37) % 300
    h = ctx.call("o2.uniform_grid", o2.uniform_grid, (n, m))
    ctx.check("grid-shape", h.shape == (n + m, 2), str(h.shape))
    ctx.close("o2-angles", h[n:, 1], torch.arange(m, dtype=D) * 2 * pi / max(m, 1), 2e-6)


def bad_axis(ctx):
    ax = ctx.choice("axis", ["w", "", "xy", "0", "a"])
    ctx.raises("unknown-axis-rejected", ValueError, so3.cyclic, ctx.rng.randint(1, 9), ax)


def planar(ctx):
    """uniform so2 grids are the cyclic groups, o2 grids their doubles"""
    n = ctx.randint("n", 1, 50)
    g = ctx.call("so2.uniform_grid", so2.uniform_grid, n)
    ctx.check("grid-shape", g.shape == (n, 1), str(g.shape))
    ctx.check("angle-range", (g >= 0).all() and (g < 2 * pi).all(), "outside [0, 2 pi)", g=g)
    ctx.close("equispaced", g[:, 0], torch.arange(n, dtype=D) * 2 * pi / n, 2e-6)
    M = refs.rot2(g[:, 0].double())
    prod = ctx.call("so2.left_apply_to_angle", so2.left_apply_to_angle, g, g)
    T = index_of(ctx, M, refs.rot2(prod[..., 0].double()), "so2 products", 1e-5)
    a = torch.arange(n)
    ctx.check("cyclic-table", (T == (a[:, None] + a) % n).all())
    m = n if ctx.flip("full") else 0
    h = ctx.call("o2.uniform_grid", o2.uniform_grid, (n, m))
    ctx.check("grid-shape", h.shape == (n + m, 2), str(h.shape))
    ctx.check("rotations-first", (h[:n, 0] == 1).all() and (h[n:, 0] == -1).all())
    ctx.close("o2-angles", h[:, 1], torch.cat((g[:, 0], g[:m, 0])), 1e-6)
    P = o2.left_apply_to_angle(h, h)
    key = lambda x: torch.stack((x[..., 0].double(), torch.cos(x[..., 1].double()), torch.sin(x[..., 1].double())), -1)
    d = (key(P)[:, :, None] - key(h)).abs().amax(-1).min(-1)[0]
    ctx.check("closure", (d < 1e-4).all(), "o2 grid is not closed")


FAMILIES = [
    Family("polyhedral", polyhedral, 10, 10, fixed=True),
    Family("cyclic", cyclic, 120, 1500),
    Family("long_cyclic", long_cyclic, 300, 1200, fixed=True),
    Family("bad_axis", bad_axis, 10, 30),
    Family("planar", planar, 120, 1500),
]
