"""C09 interpolation of signals on the group"""
import torch

from gconv.geometry import interpolation, o2, o3, so2, so3
from gconv.geometry.groups import s2
from gv import refs
from gv.core import Family, Inconclusive
from gv.groups import GROUPS, quats, rot2angles, rot3
from gv.refs import D, pi

PROPERTY = "C09"


def spread_grid(ctx, name, n):
    """a reference grid with well separated elements (n rows, float64)"""
    if name == "so2":
        base = so2.uniform_grid(n).to(D)
        jit = (torch.rand(n, 1, dtype=D) - 0.5) * (1.2 / n)
        return base + jit + torch.rand(1, dtype=D) * 6
    if n > 60:  # farthest points of a random cloud
        c = quats(ctx, 6 * n, "haar")
        pick, near = [0], (c @ c[0]).abs()
        for _ in range(n - 1):
            pick.append(near.argmin().item())
            near = torch.maximum(near, (c @ c[pick[-1]]).abs())
        return c[pick] * torch.where(torch.rand(n, 1) > 0.5, 1.0, -1.0).to(D)
    if n > 24:  # the icosahedral rotations (or a part of them)
        q = so3.icosahedral().to(D)[:n]
        return refs.quat_mul(quats(ctx, 1, "haar"), q / q.norm(dim=-1, keepdim=True))
    src = ctx.rng.choice(["cached", "finite", "translated"]) if n <= 24 else "translated"
    if src == "finite" and n in (1, 4, 12, 24):
        q = {1: so3.identity, 4: so3.klein_group, 12: so3.tetrahedral, 24: so3.octahedral}[n]().to(D)
    else:
        q = so3.uniform_grid(n, "quat", show_pbar=False).to(D)
    q = q / q.norm(dim=-1, keepdim=True)
    if src == "translated":
        q = refs.quat_mul(quats(ctx, 1, "haar"), q)
    return q * torch.where(torch.rand(n, 1) > 0.5, 1.0, -1.0).to(D)


def dist(name, a, b):
    return refs.so2_dist(a, b) if name == "so2" else refs.so3_dist(a, b)


def operator(ctx, name, nodes, grid, mode, width):
    if mode == "nearest":
        return refs.nn_matrix(dist(name, nodes, grid))
    A = refs.rbf_matrix(dist(name, nodes, grid), dist(name, grid, grid), width)
    return A


def conditioned_width(ctx, name, grid):
    """a width for which the interpolation problem is well conditioned"""
    n = grid.shape[0]
    d = dist(name, grid, grid) + 10 * torch.eye(n, dtype=D)
    nn = d.min(-1)[0].mean().item() if n > 1 else 1.0
    w = nn * ctx.rng.choice([0.4, 0.8, 1.0])
    phi = torch.exp(-(dist(name, grid, grid) ** 2) * refs.LN2 / w**2)
    return w, torch.linalg.cond(phi).item()


def sample(ctx, name, nodes, signal, grid, mode, width, as_matrix=False):
    f = so2.grid_sample if name == "so2" else so3.grid_sample
    if as_matrix:
        nodes, grid = refs.quat_mat(nodes).to(nodes.dtype), refs.quat_mat(grid).to(grid.dtype)
    mag = getattr(ctx, "magnitude", 1.0)  # a power of two: scaling by it is exact
    return ctx.call(f"{name}.grid_sample", f, ctx.layout(nodes), ctx.layout(signal * mag), ctx.layout(grid), mode=mode, width=width).detach() / mag


def signal(ctx, n, S):
    """values on n grid elements in S channels"""
    kind = ctx.choice("signal", ["normal", "normal", "normal", "sparse", "one-element", "one-channel", "equal-channels", "constant"])
    sig = torch.randn(n, S, dtype=D)
    if kind == "sparse":
        sig = sig * (torch.rand(n, S) < 0.3)
    elif kind == "one-element":
        sig[torch.arange(n) != ctx.rng.randrange(n)] = 0
    elif kind == "one-channel":
        sig[:, torch.arange(S) != ctx.rng.randrange(S)] = 0
    elif kind == "equal-channels":
        sig = sig[:, :1].repeat(1, S)
    elif kind == "constant":
        sig = sig[:1, :1].repeat(n, S)
    ctx.magnitude = ctx.choice("magnitude", [1.0, 1.0, 1.0, 2.0**-40, 2.0**40])
    return sig


def unambiguous(name, nodes, grid, margin=1e-3):
    """rows of nodes whose nearest grid element is decided by more than rounding"""
    d = dist(name, nodes, grid).sort(-1)[0]
    if grid.shape[0] == 1:
        return torch.ones(len(nodes), dtype=torch.bool)
    return d[:, 1] - d[:, 0] > margin


def draw_nodes(ctx, name, m):
    return rot2angles(ctx, m, "mixed") if name == "so2" else quats(ctx, m, "mixed")


def setup(ctx):
    name = ctx.choice("space", ["so2", "so3"])
    n = ctx.choice("grid-size", [1, 2, 3, 4, 5, 8, 12, 16, 24])
    m, S = ctx.size(1, 9, 1100, 0.05), ctx.size(1, 5, 150, 0.05)
    if ctx.rng.random() < 0.05:
        n = ctx.choice("grid-size", [18, 30, 36, 48, 60, 64, 65, 100, 129, 256, 257])
    ctx.describe(m=m, S=S)
    mode = ctx.choice("mode", ["rbf", "rbf", "nearest"])
    grid, nodes = spread_grid(ctx, name, n), draw_nodes(ctx, name, m)
    w, cond = conditioned_width(ctx, name, grid)
    ctx.describe(cond=f"{cond:.0e}"[:5])
    sig = signal(ctx, n, S)
    return name, n, m, S, mode, grid, nodes, w, cond, sig


def keep(ctx, name, nodes, grid, mode):
    if mode == "nearest":
        ok = unambiguous(name, nodes, grid)
        if not ok.any():
            nodes = grid[:1].clone()
            ok = torch.ones(1, dtype=torch.bool)
        return nodes[ok]
    return nodes


def reference(ctx):
    """grid_sample equals the float64 reference operator, in every parameterisation"""
    name, n, m, S, mode, grid, nodes, w, cond, sig = setup(ctx)
    nodes = keep(ctx, name, nodes, grid, mode)
    A = operator(ctx, name, nodes, grid, mode, w)
    want = A @ sig
    t = 1e-9 * max(1.0, cond) + (2e-7 if name == "so3" else 1e-8)
    out = sample(ctx, name, nodes, sig, grid, mode, w)
    ctx.check("sample-shape", out.shape == want.shape and out.dtype == D, str(out.shape))
    ctx.close("reference-operator", out, want, t * 10, 1e-9)
    if name == "so3":
        ctx.close("matrix-parameterisation", sample(ctx, name, nodes, sig, grid, mode, w, True), want, t * 40, 1e-8)
        ctx.close("sign-of-quaternions", sample(ctx, name, -nodes, sig, grid, mode, w), out, t)
    f32 = sample(ctx, name, nodes.float(), sig.float(), grid.float(), mode, w)
    ctx.check("sample-dtype", f32.dtype == torch.float32)
    if cond < 50:
        ctx.close("float32", f32, want, 0.02 if mode == "rbf" else 1e-6)


def near_tie(ctx):
    """nearest mode takes the closest element also when another one is almost as close"""
    name = ctx.choice("space", ["so2", "so3"])
    n = ctx.choice("grid-size", [2, 3, 4, 8, 12, 16, 24])
    grid = spread_grid(ctx, name, n)
    delta = ctx.choice("delta", [1e-2, 1e-3, 1e-4, 1e-6])
    d = dist(name, grid, grid) + 10 * torch.eye(n, dtype=D)
    nodes = []
    for i in ctx.rng.sample(range(n), min(n, 6)):
        j = d[i].argmin().item()
        if name == "so2":
            gap = (grid[j] - grid[i] + pi) % (2 * pi) - pi
            nodes.append(grid[i] + gap / 2 - delta * gap.sign())
        else:
            b = grid[j] * torch.sign((grid[i] * grid[j]).sum())
            t = 0.5 - delta / d[i, j].item()
            w = torch.acos((grid[i] * b).sum().clamp(-1, 1))
            nodes.append((torch.sin((1 - t) * w) * grid[i] + torch.sin(t * w) * b) / torch.sin(w))
    nodes = torch.stack(nodes)
    nodes = nodes[unambiguous(name, nodes, grid, delta / 4)]
    if not len(nodes):
        ctx.trivial = True
        return
    sig = torch.arange(1.0, n + 1, dtype=D)[:, None]
    for dt in (D, torch.float32) if delta > 5e-3 else (D,):
        out = sample(ctx, name, nodes.to(dt), sig.to(dt), grid.to(dt), "nearest", 0.5)
        want = dist(name, nodes, grid).argmin(-1)
        ctx.check("nearest-of-two", torch.equal(out[:, 0].long() - 1, want), f"{dt} took {out[:, 0].long() - 1}, nearest are {want}, {delta} closer")


def laws(ctx):
    """exact at the nodes, linear, independent of row order, left invariant"""
    name, n, m, S, mode, grid, nodes, w, cond, sig = setup(ctx)
    nodes = keep(ctx, name, nodes, grid, mode)
    m = nodes.shape[0]
    scale = 1e-10 * max(cond, 1.0) + 1e-7
    p = torch.randint(0, n, (m + 2,))
    at = sample(ctx, name, grid[p], sig, grid, mode, w)
    ctx.close("interpolates-exactly", at, sig[p], scale)
    if name == "so3":
        ctx.close("interpolates-exactly", sample(ctx, name, -grid[p], sig, grid, mode, w), sig[p], scale)
    else:
        ctx.close("interpolates-exactly", sample(ctx, name, grid[p] + 2 * pi, sig, grid, mode, w), sig[p], scale + 1e-6)
    out = sample(ctx, name, nodes, sig, grid, mode, w)
    sig2, a = torch.randn_like(sig), ctx.rng.uniform(-2, 2)
    ctx.close("linear", sample(ctx, name, nodes, sig + a * sig2, grid, mode, w), out + a * sample(ctx, name, nodes, sig2, grid, mode, w), scale)
    pg, pn = torch.randperm(n), torch.randperm(m)
    ctx.close("grid-relabelling", sample(ctx, name, nodes, sig[pg], grid[pg], mode, w), out, scale)
    ctx.close("node-relabelling", sample(ctx, name, nodes[pn], sig, grid, mode, w), out[pn], scale)
    # each node and each channel on its own
    i, c = ctx.rng.randrange(m), ctx.rng.randrange(S)
    ctx.close("nodes-independent", sample(ctx, name, nodes[i : i + 1], sig, grid, mode, w)[0], out[i], scale)
    ctx.close("channels-independent", sample(ctx, name, nodes, sig[:, c : c + 1], grid, mode, w)[:, 0], out[:, c], scale)
    g = draw_nodes(ctx, name, 1)
    G = GROUPS["so2"] if name == "so2" else GROUPS["so3quat"]
    if mode == "nearest":
        # translation may round: stay away from ties
        ok = unambiguous(name, nodes, grid, 1e-3)
        nodes, out = nodes[ok], out[ok]
    moved = sample(ctx, name, G.mul(g, nodes), sig, G.mul(g, grid), mode, w)
    ctx.close("left-invariant", moved, out, scale * 10 + (1e-6 if name == "so2" else 0))
    if mode == "rbf" and n == 1:
        d = dist(name, nodes, grid)
        ctx.close("single-element", out, torch.exp(-(d**2) * refs.LN2 / w**2) * sig, 1e-4)


def widths(ctx):
    """RBF_gauss: 1 at 0, 1/2 at the width, decreasing and even"""
    w = 10 ** ctx.rng.uniform(-2, 1)
    x = torch.linspace(0, 4, 50, dtype=D) * w
    shape = ctx.rng.choice([(), (1,), (4, 5), (2, 1, 3)])
    z = torch.rand(shape, dtype=D) * 4 * w
    for dt in (D, torch.float32):
        ctx.close("gauss-elementwise", ctx.call("RBF_gauss", interpolation.RBF_gauss, ctx.layout(z.to(dt)), w), torch.exp(-(z**2) * refs.LN2 / w**2), 2e-9 if dt == D else 1e-5)
    y = ctx.call("RBF_gauss", interpolation.RBF_gauss, x, w)
    ctx.close("half-width-at-half-height", interpolation.RBF_gauss(torch.tensor([0.0, w, -w], dtype=D), w), torch.tensor([1.0, 0.5, 0.5]), 1e-6)
    ctx.check("decreasing", (y[1:] < y[:-1]).all() and (y > 0).all())
    ctx.close("gauss", y, torch.exp(-(x**2) * refs.LN2 / w**2), 2e-9)


def cosets(ctx):
    """o2/o3: rotations and reflections are interpolated separately, in place"""
    name = ctx.choice("group", ["o2", "o3"])
    G = GROUPS[name]
    sub = "so2" if name == "o2" else "so3"
    n, k = ctx.choice("rotations", [0, 1, 2, 3, 4, 8, 12]), ctx.choice("reflections", [0, 1, 2, 3, 4, 8, 12])
    if n + k == 0:
        n = 2
    mode = ctx.choice("mode", ["rbf", "rbf", "nearest"])
    S, m = ctx.size(1, 4, 100, 0.05), ctx.size(1, 10, 150, 0.05)
    parts = [spread_grid(ctx, sub, x) if x else None for x in (n, k)]
    pack = lambda c, g: torch.cat((torch.full((len(g), 1), c, dtype=D), g if sub == "so2" else refs.quat_mat(g).flatten(1)), -1)
    grid = torch.cat([pack(c, g) for c, g in zip((1.0, -1.0), parts) if g is not None])
    sig = signal(ctx, n + k, S)
    mag = ctx.magnitude
    widths, conds = zip(*[conditioned_width(ctx, sub, g) if g is not None else (0.5, 1.0) for g in parts])
    raw = draw_nodes(ctx, sub, m)
    coeff = torch.where(torch.rand(m) > 0.5, 1.0, -1.0).to(D)
    only = ctx.rng.choice([None, None, 1.0, -1.0])
    if only:
        coeff[:] = only
    ok = torch.ones(m, dtype=torch.bool)
    want = torch.zeros(m, S, dtype=D)
    for i in range(m):
        j = 0 if coeff[i] > 0 else 1
        if parts[j] is None:
            continue
        s = sig[:n] if j == 0 else sig[n:]
        if mode == "nearest":
            ok[i] = unambiguous(sub, raw[i : i + 1], parts[j])[0]
        want[i] = (operator(ctx, sub, raw[i : i + 1], parts[j], mode, widths[j]) @ s)[0]
    nodes = torch.cat([pack(float(c), raw[i : i + 1]) for i, c in enumerate(coeff)])
    f = o2.grid_sample if name == "o2" else o3.grid_sample
    kw = dict(mode=mode, rotation_width=widths[0], reflection_width=widths[1])
    out = ctx.call(f"{name}.grid_sample", f, ctx.layout(nodes), ctx.layout(sig * mag), ctx.layout(grid), (n, k), **kw).detach() / mag
    t = 1e-8 * max(conds) + 1e-5
    ctx.check("sample-shape", out.shape == want.shape, str(out.shape))
    ctx.close("coset-reference", out[ok], want[ok], t)
    p = torch.randperm(m)
    ctx.close("node-relabelling", f(nodes[p], sig, grid, (n, k), **kw), out[p], t)
    # changing the signal of one coset does not touch the other
    sig2 = sig.clone()
    sig2[n:] += 5
    ctx.close("cosets-do-not-mix", f(nodes, sig2, grid, (n, k), **kw)[coeff > 0], out[coeff > 0], 1e-12 * max(conds) + 1e-9)
    sig2 = sig.clone()
    sig2[:n] -= 5
    ctx.close("cosets-do-not-mix", f(nodes, sig2, grid, (n, k), **kw)[coeff < 0], out[coeff < 0], 1e-12 * max(conds) + 1e-9)
    ctx.event("coset-nodes", m)


def batched(ctx):
    """the raw interpolators on batches of problems and custom distances"""
    mode = ctx.choice("mode", ["rbf", "nearest"])
    B, K, L, S = (ctx.size(1, 5, 40 if k != "grid" else 12, 0.06) for k in ("batch", "nodes", "grid", "channels"))
    grid = torch.randn(B, L, 3, dtype=D) * 2
    nodes = torch.randn(B, K, 3, dtype=D) * 2
    sig = torch.randn(B, L, S, dtype=D)
    f = lambda a, b: (a - b).norm(dim=-1)
    dg = torch.cdist(grid, grid, compute_mode="donot_use_mm_for_euclid_dist")
    dn = torch.cdist(nodes, grid, compute_mode="donot_use_mm_for_euclid_dist")
    if mode == "nearest":
        out = ctx.call("interpolate_NN", interpolation.interpolate_NN, ctx.layout(nodes), ctx.layout(grid), ctx.layout(sig), dist_fn=f)
        want = torch.stack([refs.nn_matrix(dn[b]) @ sig[b] for b in range(B)])
        ctx.close("batched-reference", out, want, 1e-12)
        return
    w = ctx.rng.choice([0.3, 0.7])
    cond = max(torch.linalg.cond(torch.exp(-(dg[b] ** 2) * refs.LN2 / w**2)).item() for b in range(B))
    if cond > 1e6:
        ctx.trivial = True
        return
    out = ctx.call("interpolate_RBF", interpolation.interpolate_RBF, ctx.layout(nodes), ctx.layout(grid), ctx.layout(sig), dist_fn=f, width=w)
    want = torch.stack([refs.rbf_matrix(dn[b], dg[b], w) @ sig[b] for b in range(B)])
    ctx.close("batched-reference", out, want, 1e-8 * cond)
    inv = lambda d, w: 1 / (1 + d / w)
    out = ctx.call("interpolate_RBF", interpolation.interpolate_RBF, nodes, grid, sig, dist_fn=f, rbf=inv, width=w)
    want = torch.stack([torch.linalg.solve(inv(dg[b], w).T, inv(dn[b], w).T).T @ sig[b] for b in range(B)])
    ctx.close("custom-rbf", out, want, 1e-8)


def barycentric(ctx):
    """interpolate_BCC on the sphere: exact at grid points, reproduces a signal that is
    constant, convex combination of the three nearest values"""
    n = ctx.choice("n", [12, 20, 42, 60])
    i = torch.arange(n, dtype=D) + 0.5
    ph = torch.acos(1 - 2 * i / n)
    th = pi * (1 + 5**0.5) * i
    grid = torch.stack((torch.cos(th) * torch.sin(ph), torch.sin(th) * torch.sin(ph), torch.cos(ph)), -1) @ rot3(ctx, 1, "haar")[0].T
    m, S = ctx.size(1, 6, 200, 0.06), ctx.size(1, 4, 40, 0.06)
    nodes = torch.randn(m, 3, dtype=D)
    nodes = nodes / nodes.norm(dim=-1, keepdim=True)
    sig = torch.randn(n, S, dtype=D)
    # the distance of the library, with a clamp below the exactness threshold of interpolate_BCC
    df = lambda a, b: s2.geodesic_distance_s2(a, b, eps=1e-14)
    pick = torch.randint(0, n, (m,))
    at = ctx.call("interpolate_BCC", interpolation.interpolate_BCC, grid[None, pick], grid[None], sig[None], dist_fn=df)
    ctx.check("sample-shape", at.shape == (1, m, S), str(at.shape))
    ctx.close("exact-at-grid", at[0], sig[pick], 1e-6)
    out = ctx.call("interpolate_BCC", interpolation.interpolate_BCC, ctx.layout(nodes[None]), ctx.layout(grid[None]), ctx.layout(sig[None]), dist_fn=df)[0].detach()
    d = torch.acos((nodes @ grid.T).clamp(-1, 1))
    near = d.topk(4, largest=False)
    idx = near[1][:, :3]
    sure = near[0][:, 3] - near[0][:, 2] > 1e-6
    V = sig[idx]
    ctx.check("convex-combination", ((out <= V.amax(1) + 1e-9) & (out >= V.amin(1) - 1e-9))[sure].all(), "outside the range of the three nearest values")
    # reference weights: solve, clip, normalise
    T = grid[idx]
    wts = torch.linalg.lstsq(T.mT, nodes[..., None])[0][..., 0].clamp(min=0)
    wts = wts / wts.sum(-1, keepdim=True)
    det = torch.linalg.det(T).abs()
    sure &= det > 1e-3
    ctx.close("barycentric-reference", out[sure], (wts[..., None] * V).sum(1)[sure], 1e-6)
    f32 = interpolation.interpolate_BCC(nodes[None].float(), grid[None].float(), sig[None].float(), dist_fn=s2.geodesic_distance_s2)[0]
    ctx.check("sample-dtype", f32.dtype == torch.float32 and f32.shape == (m, S))
    far = sure & (near[0][:, 0] > 0.05)  # away from grid points, float32 distances decide the same neighbours
    far &= near[0][:, 3] - near[0][:, 2] > 1e-3
    ctx.close("barycentric-float32", f32[far], out[far], 1e-3)
    const = interpolation.interpolate_BCC(nodes[None], grid[None], torch.ones(1, n, S, dtype=D) * 3, dist_fn=df)
    # a batch of problems: each as if alone
    perm = torch.randperm(n)
    g2 = grid[perm] @ rot3(ctx, 1, "haar")[0].T
    both = ctx.call("interpolate_BCC", interpolation.interpolate_BCC, torch.stack((nodes, nodes)), torch.stack((grid, g2)), torch.stack((sig, 2 * sig)), dist_fn=df)
    ctx.close("batch-independent", both[0], out, 1e-9)
    alone = interpolation.interpolate_BCC(nodes[None], g2[None], 2 * sig[None], dist_fn=df)[0]
    ctx.close("batch-independent", both[1], alone, 1e-9)
    ctx.close("constant-signal", const, torch.full((1, m, S), 3.0), 1e-9)


def bad_mode(ctx):
    m = ctx.choice("mode", ["bilinear", "linear", "", "RBFF"])
    g = so2.uniform_grid(3)
    ctx.raises("unknown-mode-rejected", ValueError, so2.grid_sample, g, torch.ones(3, 1), g, m)
    q = so3.klein_group()
    ctx.raises("unknown-mode-rejected", ValueError, so3.grid_sample, q, torch.ones(4, 1), q, m)


FAMILIES = [
    Family("reference", reference, 400, 9000),
    Family("near-tie", near_tie, 60, 1000),
    Family("laws", laws, 350, 9000),
    Family("widths", widths, 30, 300),
    Family("cosets", cosets, 350, 9000),
    Family("batched", batched, 150, 4000),
    Family("barycentric", barycentric, 150, 3000),
    Family("bad_mode", bad_mode, 6, 20),
]
