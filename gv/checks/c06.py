"""C06 random group elements are valid and Haar distributed"""
import math

import torch

from gconv.geometry import o2, o3, so2, so3
from gconv.geometry.groups import s2
from gv import refs
from gv.core import Family
from gv.refs import D, pi

PROPERTY = "C06"
SIG = 7.0  # a fair generator exceeds this with probability < 3e-12 per statistic


def ks(ctx, name, x, cdf):
    """Kolmogorov-Smirnov: sqrt(n) sup|F_n - F| stays below 4 (p < 3e-14)"""
    n = x.numel()
    f = cdf(x.double().flatten()).sort()[0]
    i = torch.arange(n, dtype=D)
    d = max((f - i / n).abs().max().item(), ((i + 1) / n - f).abs().max().item())
    ctx.event(name, n)
    ctx.ratio(name, math.sqrt(n) * d / 4)
    ctx.check("distribution", math.sqrt(n) * d < 4, f"{name}: KS statistic {math.sqrt(n)*d:.2f}")


def mean(ctx, name, x, mu, sd):
    """every component mean of the sample x (n, ...) lies within SIG standard errors"""
    n = x.shape[0]
    z = (x.double().mean(0) - mu).abs() * math.sqrt(n) / sd
    ctx.event(name, n)
    ctx.ratio(name, z.max().item() / SIG)
    ctx.check("distribution", (z < SIG).all(), f"{name}: {z.max().item():.1f} standard errors off")


def moments(ctx, R):
    """first two moments and the angle law of Haar rotations (Schur orthogonality)"""
    n = R.shape[0]
    mean(ctx, "E[R]=0", R, 0.0, 1 / math.sqrt(3))
    v = R.reshape(n, 9)
    mean(ctx, "E[R R]=I/3", (v[:, :, None] * v[:, None]).reshape(n, -1), (torch.eye(9, dtype=D) / 3).reshape(-1), 0.45)
    ks(ctx, "angle-law", refs.rot_angle(R), lambda t: (t - torch.sin(t)) / pi)
    # translates of a Haar sample are Haar samples: same angle law about any other element
    g = refs.rodrigues(torch.randn(3, dtype=D))
    ks(ctx, "angle-law", refs.rot_angle(g @ R), lambda t: (t - torch.sin(t)) / pi)
    ks(ctx, "uniform-column", R[:, ctx.rng.randrange(3), ctx.rng.randrange(3)], lambda t: (t + 1) / 2)


N = 12000


def draw_shape(ctx, ints=True):
    s = ctx.choice("shape", ([7, 1] if ints else []) + [(5,), (3, 2), (1,), (2, 1, 3), (), torch.Size([4]), torch.Size([2, 3]), "any", "any"])
    if s == "any":
        s = tuple(ctx.rng.randint(1, 4) for _ in range(ctx.rng.randint(1, 5)))
        ctx.describe(shape=s)
    return s, (s if isinstance(s, tuple) else (s,))


def split(ctx, n):
    """a shape of n elements, with up to four axes, some of them of one element"""
    out = []
    for _ in range(ctx.rng.randint(1, 4) - 1):
        d = ctx.rng.choice([d for d in range(1, n + 1) if n % d == 0])
        out.append(d)
        n //= d
    out.append(n)
    ctx.rng.shuffle(out)
    return tuple(out)


GEN = {
    "quat": (so3.random_quat, (4,), lambda x: refs.quat_mat(x)),
    "matrix": (so3.random_matrix, (3, 3), lambda x: x.double()),
    "euler": (so3.random_euler, (3,), lambda x: refs.euler_zyz(x)),
    "o3": (o3.random_grid, (10,), lambda x: x[..., 1:].unflatten(-1, (3, 3)).double()),
}


def so3_valid(ctx):
    name = ctx.choice("generator", GEN)
    f, tail, rep = GEN[name]
    arg, full = draw_shape(ctx)
    x = ctx.call("random." + name, f, arg)
    ctx.check("random-shape", x.shape == (*full, *tail), str(x.shape))
    R = rep(x)
    eye = torch.eye(3, dtype=D).expand(*full, 3, 3)
    ctx.close("orthogonal", R @ R.mT, eye, 2e-5)
    ctx.close("det-one", torch.linalg.det(R), torch.ones(full), 2e-5)
    if name == "quat":
        ctx.close("unit", x.norm(dim=-1), torch.ones(full), 1e-5)
    if name == "o3":
        ctx.check("coefficients", (x[..., 0].abs() == 1).all(), x=x)
    y = f(arg)
    ctx.check("fresh-draws", not torch.equal(x, y), "two draws are identical")
    ctx.check("no-element-drawn-twice", len(torch.unique(x.reshape(-1, *tail), dim=0)) == R[..., 0, 0].numel(), f"repeated elements in a draw of shape {full}")
    s = ctx.rng.randrange(2**31)
    torch.manual_seed(s)
    a = f(arg)
    torch.manual_seed(s)
    ctx.same("seed-reproduces", f(arg), a)


def so3_haar(ctx):
    names = list(GEN)
    name = names[ctx.index % len(names)]
    ctx.describe(generator=name)
    f, tail, rep = GEN[name]
    shape = (N // 4, 4) if ctx.flip("batched") else N
    x = ctx.call("random." + name, f, shape).reshape(N, *tail)
    R = rep(x)
    moments(ctx, R)
    if name == "quat":
        mean(ctx, "E[q]=0", x, 0.0, 0.5)
    if name == "euler":
        b = x[:, 1].double()
        ks(ctx, "euler-cos-beta", torch.cos(b), lambda t: (t + 1) / 2)
        ks(ctx, "euler-alpha", x[:, 0], lambda t: (t + pi) / (2 * pi))
        ks(ctx, "euler-gamma", x[:, 2], lambda t: (t + pi) / (2 * pi))
    if name == "o3":
        c = x[:, 0].double()
        mean(ctx, "fair-coset", c[:, None], 0.0, 1.0)
        moments(ctx, R[c > 0])
        moments(ctx, R[c < 0])
    # draws are independent of each other
    mean(ctx, "independent-draws", (R[:-1, :, 0] * R[1:, :, 0]), 0.0, 1 / 3)


def circle(ctx):
    n = ctx.choice("n", [1, 2, 5, N])
    g = ctx.call("so2.random_grid", so2.random_grid, n)
    ctx.check("random-shape", g.shape == (n, 1), str(g.shape))
    ctx.check("angle-range", (g >= 0).all() and (g < 2 * pi + 1e-6).all(), "outside [0, 2 pi)")
    h = ctx.call("o2.random_grid", o2.random_grid, n)
    ctx.check("random-shape", h.shape == (n, 2), str(h.shape))
    ctx.check("coefficients", (h[:, 0].abs() == 1).all())
    ctx.check("angle-range", (h[:, 1] >= 0).all() and (h[:, 1] < 2 * pi + 1e-6).all(), "outside [0, 2 pi)")
    ctx.check("fresh-draws", not torch.equal(g, so2.random_grid(n)))
    s = ctx.rng.randrange(2**31)
    torch.manual_seed(s)
    a, b = so2.random_grid(n), o2.random_grid(n)
    torch.manual_seed(s)
    ctx.same("seed-reproduces", so2.random_grid(n), a)
    ctx.same("seed-reproduces", o2.random_grid(n), b)
    if n == N:
        u = lambda t: t / (2 * pi)
        ks(ctx, "uniform-angle", g[:, 0], u)
        ks(ctx, "uniform-angle", h[:, 1], u)
        for s in (1, -1):
            ks(ctx, "uniform-angle-per-coset", h[h[:, 0] == s, 1], u)
        mean(ctx, "fair-coset", h[:, :1], 0.0, 1.0)
        th = g[:, 0].double()
        mean(ctx, "independent-draws", torch.stack((torch.cos(th[1:] - th[:-1]), torch.sin(th[1:] - th[:-1])), -1), 0.0, 0.7072)


def sphere(ctx):
    shape = ctx.choice("shape", [(1,), (4,), (2, 3), (N,), "any"])
    shape = split(ctx, ctx.rng.randint(1, 24)) if shape == "any" else shape
    ctx.describe(shape=shape)
    g = ctx.call("s2.random_s2", s2.random_s2, shape)
    ctx.check("no-point-drawn-twice", shape == (N,) or len(torch.unique(g.reshape(-1, 2), dim=0)) == math.prod(shape), f"repeated points in a draw of shape {shape}")
    ctx.check("random-shape", g.shape == (*shape, 2), str(g.shape))
    ctx.check("angle-range", (g[..., 0] >= 0).all() and (g[..., 0] <= pi + 1e-6).all() and (g[..., 1].abs() <= pi + 1e-6).all())
    ctx.check("fresh-draws", not torch.equal(g, s2.random_s2(shape)))
    if shape == (N,):
        b, c = g.double().unbind(-1)
        x = torch.stack((torch.sin(b) * torch.cos(c), torch.sin(b) * torch.sin(c), torch.cos(b)), -1)
        mean(ctx, "E[x]=0", x, 0.0, 1 / math.sqrt(3))
        for i in range(3):
            ks(ctx, "archimedes", x[:, i], lambda t: (t + 1) / 2)
        ks(ctx, "longitude", c, lambda t: (t + pi) / (2 * pi))


def pairs(ctx):
    """the elements of one batch are independent of each other, whatever the size of the batch:
    products and quotients of two of them are Haar distributed again"""
    name = list(GEN)[ctx.index % len(GEN)]
    f, tail, rep = GEN[name]
    n = ctx.choice("batch", [2, 3, 4, 8, 16, 24, 32, 33, 48, 64])
    shape = split(ctx, n)
    ctx.describe(generator=name, shape=shape)
    B = 240
    R = torch.stack([rep(f(shape)).reshape(n, 3, 3) for _ in range(B)])
    prod, quot = (torch.einsum("bnij,bm" + t + "->bnmik", R, R) for t in ("jk", "kj"))
    up = torch.triu(torch.ones(n, n, dtype=torch.bool), 1)
    for what, X in (("products", prod), ("quotients", quot)):
        z = (X[:, up].mean(0).abs() * math.sqrt(B) * math.sqrt(3)).max().item()
        ctx.ratio("independent-" + what, z / SIG)
        ctx.check("independent-" + what, z < SIG, f"{what} of elements of one batch of {n}: {z:.1f} standard errors off")
    ctx.event("pairs", int(up.sum()) * B)
    if name == "o3":
        c = torch.stack([f(shape)[..., 0].reshape(n) for _ in range(B)]).double()
        z = ((c[:, :, None] * c[:, None]).mean(0).abs() * math.sqrt(B))[up].max().item()
        ctx.check("independent-cosets", z < SIG, f"{z:.1f} standard errors off")
        z = (c.mean(0).abs() * math.sqrt(B)).max().item()
        ctx.check("fair-coset-at-every-position", z < SIG, f"{z:.1f} standard errors off")
    else:
        z = (R.mean(0).abs() * math.sqrt(B) * math.sqrt(3)).max().item()
        ctx.check("haar-at-every-position", z < SIG, f"{z:.1f} standard errors off")


def circle_pairs(ctx):
    """the same for angles and O(2) elements"""
    n = ctx.choice("batch", [1, 2, 3, 8, 16, 32, 33, 64])
    B = 300
    g = torch.stack([so2.random_grid(n)[:, 0] for _ in range(B)]).double()
    h = torch.stack([o2.random_grid(n) for _ in range(B)]).double()
    up = torch.triu(torch.ones(n, n, dtype=torch.bool), 1)
    for a in (g, h[..., 1]):
        e = torch.stack((torch.cos(a), torch.sin(a)), -1)
        z = (e.mean(0).abs() * math.sqrt(2 * B)).max().item()
        ctx.check("uniform-at-every-position", z < SIG, f"{z:.1f} standard errors off")
        for sg in (1, -1):
            d = (a[:, :, None] + sg * a[:, None])[:, up]
            if d.numel():
                e = torch.stack((torch.cos(d), torch.sin(d)), -1)
                z = (e.mean(0).abs() * math.sqrt(2 * B)).max().item()
                ctx.check("independent-angles", z < SIG, f"{z:.1f} standard errors off")
    c = h[..., 0]
    z = (c.mean(0).abs() * math.sqrt(B)).max().item()
    ctx.check("fair-coset-at-every-position", z < SIG, f"{z:.1f} standard errors off")
    if n > 1:
        z = ((c[:, :, None] * c[:, None]).mean(0).abs() * math.sqrt(B))[up].max().item()
        ctx.check("independent-cosets", z < SIG, f"{z:.1f} standard errors off")
        ca = c[..., None] * torch.stack((torch.cos(h[..., 1]), torch.sin(h[..., 1])), -1)
        z = (ca.mean(0).abs() * math.sqrt(2 * B)).max().item()
        ctx.check("coset-independent-of-angle", z < SIG, f"{z:.1f} standard errors off")


def joint_laws(ctx):
    """small batches: the relation between any two elements of one batch has the law of independent
    Haar elements (not only its mean)"""
    names = list(GEN) + ["so2", "o2", "s2"]
    name = names[ctx.index % len(names)]
    n = ctx.choice("batch", [2, 2, 3, 3, 4, 5, 6, 8])
    ctx.describe(generator=name)
    B = 8000
    i, j = sorted(ctx.rng.sample(range(n), 2)) if ctx.rng.random() < 0.5 else (0, n - 1)
    ctx.describe(pair=(i, j))
    if name in ("so2", "o2"):
        f = so2.random_grid if name == "so2" else o2.random_grid
        g = torch.stack([f(n)[[i, j]] for _ in range(B)]).double()
        for sg in (1, -1):
            ks(ctx, "relative-angle", (g[:, 0, -1] + sg * g[:, 1, -1]) % (2 * pi), lambda t: t / (2 * pi))
        k = torch.arange(1, 7, dtype=D)
        a, b = (torch.cat((torch.cos(k * g[:, q, -1:]), torch.sin(k * g[:, q, -1:])), -1) for q in (0, 1))
        mean(ctx, "independent-harmonics", a[:, :, None] * b[:, None], 0.0, 0.5)
        if name == "o2":
            c = g[..., 0]
            mean(ctx, "coset-and-angles", torch.cat((c, c.prod(-1, keepdim=True), (c[:, :, None] * torch.stack((a, b), 1)).flatten(1),
                                                     (c.flip(1)[:, :, None] * torch.stack((a, b), 1)).flatten(1)), -1), 0.0, 1.0)
    elif name == "s2":
        g = torch.stack([s2.random_s2((n,))[[i, j]] for _ in range(B)]).double()
        b, c = g.unbind(-1)
        x = torch.stack((torch.sin(b) * torch.cos(c), torch.sin(b) * torch.sin(c), torch.cos(b)), -1)
        ks(ctx, "relative-angle", (x[:, 0] * x[:, 1]).sum(-1), lambda t: (t + 1) / 2)
    else:
        f, tail, rep = GEN[name]
        g = torch.stack([f(n)[[i, j]] for _ in range(B)])
        R = rep(g)
        law = lambda t: (t - torch.sin(t)) / pi
        ks(ctx, "relative-angle", refs.rot_angle(R[:, 0].mT @ R[:, 1]), law)
        ks(ctx, "relative-angle", refs.rot_angle(R[:, 0] @ R[:, 1]), law)
        mean(ctx, "independent-entries", R[:, 0].flatten(1)[:, :, None] * R[:, 1].flatten(1)[:, None], 0.0, 1 / 3)
        if name == "quat":
            q = g.double()
            mean(ctx, "independent-quaternions", q[:, 0, :, None] * q[:, 1, None], 0.0, 0.25)
        if name == "o3":
            c = g[..., 0].double()
            mean(ctx, "coset-and-rotation", torch.cat((c, c.prod(-1, keepdim=True)), -1), 0.0, 1.0)
            mean(ctx, "coset-and-rotation", c.prod(-1)[:, None] * (R[:, 0].mT @ R[:, 1]).flatten(1), 0.0, 1 / math.sqrt(3))
            for q in (0, 1):
                mean(ctx, "coset-and-rotation", c[:, q, None] * R[:, 1 - q].flatten(1), 0.0, 1 / math.sqrt(3))
    ctx.event("joint-draws", B)


def spacings(ctx):
    """large batches: no coincidences, no lattice, no clusters; neighbours are as far apart as independent elements"""
    names = list(GEN) + ["so2", "o2", "s2"]
    name = names[ctx.index % len(names)]
    n = ctx.choice("batch", [100, 500, 1500, 2500])
    ctx.describe(generator=name)
    exp = lambda t: 1 - torch.exp(-t)
    if name in ("so2", "o2"):
        g = (so2.random_grid if name == "so2" else o2.random_grid)(n)
        for th in [g[:, 0]] if name == "so2" else [g[:, 1], g[g[:, 0] > 0, 1], g[g[:, 0] < 0, 1]]:
            th = th.double().sort()[0]
            m = len(th)
            gaps = torch.cat((th[1:] - th[:-1], th[:1] + 2 * pi - th[-1:])) * m / (2 * pi)
            ks(ctx, "spacings", gaps, exp)
            k = torch.arange(1, 3001, dtype=D)
            z, step = 0.0, 1 + int(4e6) // m
            for c in k.split(step):
                p = c[:, None] * th
                z = max(z, torch.hypot(torch.cos(p).mean(1), torch.sin(p).mean(1)).max().item() * math.sqrt(m))
            # |mean|^2 m is exponential: 6.5^2 = 42 among 3000 harmonics has probability 1e-15
            ctx.ratio("harmonics", z / 6.5)
            ctx.check("no-lattice", z < 6.5, f"a harmonic of {m} angles has {z:.1f} times the size expected of independent ones")
        return
    if name == "s2":
        b, c = s2.random_s2((n,)).double().unbind(-1)
        x = torch.stack((torch.sin(b) * torch.cos(c), torch.sin(b) * torch.sin(c), torch.cos(b)), -1)
        d2 = torch.cdist(x, x).square() + 10 * torch.eye(n, dtype=D)
        near = d2.min(-1)[0] / 4  # the share of the sphere within the distance
    else:
        f, tail, rep = GEN[name]
        q = refs.mat_quat(rep(f(n)))
        t = 2 * refs.so3_dist(q, q) + 10 * torch.eye(n, dtype=D)
        near = t.min(-1)[0]
        near = (near - torch.sin(near)) / pi
    x = (near * (n - 1)).sort()[0]
    f, i = exp(x), torch.arange(n, dtype=D)
    z = max((f - i / n).abs().max().item(), ((i + 1) / n - f).abs().max().item()) * math.sqrt(n)
    ctx.ratio("neighbour-law", z / 6)  # (neighbours share distances: the statistic is up to sqrt(2) times the usual one)
    ctx.check("neighbour-law", z < 6, f"distances to the nearest of {n} elements: KS statistic {z:.1f}")


def precise_laws(ctx):
    """the same laws on samples large enough to see a deviation of one percent"""
    names = list(GEN) + ["so2", "o2", "s2"]
    name = names[ctx.index % len(names)]
    n = 250000
    ctx.describe(generator=name, samples=n)
    if name in GEN:
        f, tail, rep = GEN[name]
        x = f(n)
        R = rep(x)
        moments(ctx, R)
        if name == "quat":
            mean(ctx, "E[q]=0", x, 0.0, 0.5)
        if name == "euler":
            ks(ctx, "euler-alpha", x[:, 0], lambda t: (t + pi) / (2 * pi))
            ks(ctx, "euler-gamma", x[:, 2], lambda t: (t + pi) / (2 * pi))
        if name == "o3":
            c = x[:, :1].double()
            mean(ctx, "fair-coset", c, 0.0, 1.0)
            mean(ctx, "coset-independent-of-rotation", c * R.flatten(1), 0.0, 1 / math.sqrt(3))
    elif name == "s2":
        b, c = s2.random_s2((n,)).double().unbind(-1)
        x = torch.stack((torch.sin(b) * torch.cos(c), torch.sin(b) * torch.sin(c), torch.cos(b)), -1)
        mean(ctx, "E[x]=0", x, 0.0, 1 / math.sqrt(3))
        for i in range(3):
            ks(ctx, "archimedes", x[:, i], lambda t: (t + 1) / 2)
    else:
        g = (so2 if name == "so2" else o2).random_grid(n).double()
        ks(ctx, "uniform-angle", g[:, -1], lambda t: t / (2 * pi))
        if name == "o2":
            mean(ctx, "fair-coset", g[:, :1], 0.0, 1.0)
            t = g[:, 1:]
            mean(ctx, "coset-independent-of-rotation", g[:, :1] * torch.cat((torch.cos(t), torch.sin(t)), -1), 0.0, 0.7072)


FAMILIES = [
    Family("precise_laws", precise_laws, 7, 70),
    Family("spacings", spacings, 42, 420),
    Family("so3_valid", so3_valid, 160, 3000),
    Family("so3_haar", so3_haar, 24, 400),
    Family("circle", circle, 60, 800),
    Family("sphere", sphere, 40, 600),
    Family("pairs", pairs, 48, 600),
    Family("circle_pairs", circle_pairs, 32, 400),
    Family("joint_laws", joint_laws, 14, 210),
]
