"""C21 gradients are the derivatives of the forward pass"""
import copy
import math

import torch
import torch.nn as nn
from torch.utils.checkpoint import checkpoint

from gconv import gnn
from gconv.gnn.kernels import GSubgroupKernelSO3
from gv import layers as L, refs
from gv.checks import c20
from gv.groups import rot3
from gv.core import Family
from gv.refs import D
from gv.tables import FUNCTIONS

PROPERTY = "C21"


def adjoint(ctx):
    """<c, J v> = <J^T c, v> for the input and for every parameter, J v from the layer itself"""
    s, m, hi, ho, x = c20.draw(ctx)
    if ctx.flip("eval", 0.2):
        m.eval()
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn_like(p))
    x = torch.randn(x.shape, dtype=D)
    x.requires_grad_()
    y, _ = L.run(ctx, m, s, x, hi, ho)
    c = torch.randn_like(y)
    ps = [("input", x)] + list(m.named_parameters())
    gs = torch.autograd.grad((c * y).sum(), [p for _, p in ps], allow_unused=True)
    for (name, p), g in zip(ps, gs):
        ctx.check("gradient-exists", g is not None and g.shape == p.shape, f"{name} gets no gradient")
        v = torch.randn_like(p)
        with torch.no_grad():  # the layer is linear in each of its arguments separately
            keep = p.detach().clone()
            p.copy_(keep + v)
            a = L.run(ctx, m, s, x, hi, ho)[0]
            p.copy_(keep - v)
            b = L.run(ctx, m, s, x, hi, ho)[0]
            p.copy_(keep)
        lhs, rhs = ((a - b) / 2 * c).sum(), (g * v).sum()
        scale = ((a.abs() + b.abs()) * c.abs()).sum().item() + 1e-9
        ctx.close(f"adjoint:{s.kind}{s.fam}", rhs, lhs, scale * 1e-11)
        ctx.event("directional-derivatives")


def subgroup(ctx):
    """the SO3 subgroup layer on grids of any size, one element included"""
    groups = ctx.choice("groups", [1, 2])
    cin, cout, n = groups * ctx.randint("cin/g", 1, 2), groups * ctx.randint("cout/g", 1, 2), ctx.choice("n_ref", [1, 2, 4, 6])
    kern = GSubgroupKernelSO3(cin, cout, n, groups=groups, grid_H=L.spread_rotations(ctx, n).float(),
                              sampling_mode=ctx.choice("mode", ["rbf", "rbf", "nearest"]))
    m = gnn.GConv3d(cin, cout, 1, n, kern, groups=groups, bias=ctx.flip("bias")).double()
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn_like(p))
    hi, ho = rot3(ctx, ctx.choice("n_in", [1, 1, 2, 4, 9]), "mixed"), rot3(ctx, ctx.choice("n_out", [1, 1, 2, 4, 7]), "mixed")
    x = torch.randn(ctx.randint("N", 1, 2), cin, len(hi), *(ctx.rng.randint(1, 3) for _ in range(3)), dtype=D).requires_grad_()
    y, _ = ctx.call("layer:subgroupSO3", m, x, hi, ho)
    c = torch.randn_like(y)
    ps = [("input", x)] + list(m.named_parameters())
    gs = torch.autograd.grad((c * y).sum(), [p for _, p in ps], allow_unused=True)
    for (name, p), g in zip(ps, gs):
        ctx.check("gradient-exists", g is not None and g.shape == p.shape, f"{name} gets no gradient")
        v = torch.randn_like(p)
        with torch.no_grad():
            keep = p.detach().clone()
            p.copy_(keep + v)
            a = m(x, hi, ho)[0]
            p.copy_(keep - v)
            b = m(x, hi, ho)[0]
            p.copy_(keep)
        scale = ((a.abs() + b.abs()) * c.abs()).sum().item() + 1e-9
        ctx.close("adjoint:subgroup", (g * v).sum(), ((a - b) / 2 * c).sum(), scale * 1e-11)
        ctx.event("directional-derivatives")
    gw = dict(zip([n_ for n_, _ in ps], gs))["kernel.weight"]
    if kern.sample_H_kwargs.get("mode", "rbf") == "rbf" and len(hi) * len(ho) >= 1:
        ctx.check("no-dead-weights", gw.abs().amax((1, 2)).gt(0).all(), "a reference element never matters")


def reach(ctx):
    """every reference element, channel and bias influences the response, none of them is dead"""
    s, m, hi, ho, x = c20.draw(ctx, gmode="rbf", smode="bilinear", spad="border", k=ctx.rng.choice([1, 3]), stride=1, padding=1,
                               padding_mode="zeros", dilation=1, width=0.0, width2=0.0)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn_like(p))
    hi, ho = L.rand_H(ctx, s.fam, 4, "haar"), L.rand_H(ctx, s.fam, 4, "haar")
    if s.E:  # both cosets occur
        hi[:2, 0], hi[2:, 0], ho[:, 0] = 1, -1, 1
    x = torch.randn(2, s.cin, *(() if s.kind == "lift" else (4,)), *(5,) * s.n, dtype=D)
    y, _ = L.run(ctx, m, s, x, hi, ho)
    c = torch.randn_like(y)
    gs = torch.autograd.grad((c * y).sum(), list(m.parameters()))
    for (name, p), g in zip(m.named_parameters(), gs):
        if name == "bias":
            ctx.close("bias-gradient", g.flatten(), c.transpose(0, 1).flatten(1).sum(1), 1e-9 * c.numel())
            continue
        lead = 3 if name.endswith("weight_H") or s.kind == "conv" else 2
        dead = g.reshape(*g.shape[:lead], -1).abs().amax(-1) == 0
        ctx.check("no-dead-weights", not dead.any(), f"{name}: {int(dead.sum())} of {dead.numel()} weight blocks never matter")
    gx = torch.autograd.grad((c * L.run(ctx, m, s, x.requires_grad_(), hi, ho)[0]).sum(), x)[0]
    ctx.check("no-dead-inputs", (gx.flatten(3 if s.kind != "lift" else 2).abs().amax(-1) > 0).all(), "input channels or elements are ignored")


def partial(ctx):
    """gradients do not depend on what else is differentiated: frozen parameters, constant inputs, micro-batches, recomputation"""
    s, m, hi, ho, x = c20.draw(ctx, permute=ctx.flip("permute", 0.3))
    ctx.describe(**s.brief())
    x = torch.cat((x, torch.randn_like(x)))
    seed = ctx.rng.randrange(1 << 30)

    def run(x):
        torch.manual_seed(seed)
        return L.run(ctx, m, s, x, hi, ho)[0]

    names = ["input"] + [n for n, _ in m.named_parameters()]
    x.requires_grad_()
    leaves = dict(zip(names, [x] + list(m.parameters())))
    y = run(x)
    c = torch.randn_like(y)
    full = dict(zip(names, torch.autograd.grad((c * y).sum(), list(leaves.values()))))
    scale = {n: 1e-10 * (g.abs().max().item() + 1e-30) for n, g in full.items()}

    # freeze a random part
    keep = ctx.rng.sample(names, ctx.rng.randint(1, len(names)))
    ctx.describe(differentiated=tuple(sorted(keep)))
    for n, p in leaves.items():
        p.requires_grad_(n in keep)
    y1 = run(x)
    ctx.close("frozen-response", y1, y.detach(), 1e-10 * (y.abs().max().item() + 1e-30))
    ctx.check("frozen-still-differentiable", y1.requires_grad, f"no gradients although {keep} need them")
    for n, g in zip(keep, torch.autograd.grad((c * y1).sum(), [leaves[n] for n in keep], allow_unused=True)):
        ctx.check("gradient-exists", g is not None, f"{n} gets no gradient")
        ctx.close("frozen-gradient", g, full[n], scale[n])
    for p in leaves.values():
        p.requires_grad_()

    # two micro-batches accumulate to the gradient of the batch
    k = ctx.rng.randint(1, x.shape[0] - 1)
    for a, b in ((0, k), (k, x.shape[0])):
        (c[a:b] * run(x[a:b])).sum().backward()
    for n, p in leaves.items():
        ctx.close("accumulated-gradient", p.grad, full[n], 10 * scale[n])
        p.grad = None

    # recomputation of activations
    torch.manual_seed(seed)
    y2 = checkpoint(lambda x: L.run(ctx, m, s, x, hi, ho)[0], x, use_reentrant=ctx.flip("reentrant", 0.3))
    (c * y2).sum().backward()
    for n, p in leaves.items():
        ctx.close("recomputed-gradient", p.grad, full[n], scale[n])
    for p in leaves.values():
        p.grad = None

    # gradient penalty: the gradient with respect to the input, differentiated again
    y3 = run(x)
    gx, = torch.autograd.grad((c * y3).sum(), x, create_graph=True)
    d = torch.randn_like(x)
    ps = [p for n, p in leaves.items() if n not in ("input", "bias")]
    with torch.no_grad():
        want = (c * (run(x + d) - run(x - d))).sum() / 2
    got = (gx * d).sum()
    ctx.close("input-gradient", got.detach(), want, 1e-10 * ((c.abs() * y3.abs()).sum().item() + want.abs().item() + 1e-30) * 100)
    second = torch.autograd.grad(got, ps)
    first = torch.autograd.grad((c * run(d.detach())).sum(), ps)
    for a, b in zip(second, first):
        ctx.close("gradient-penalty", a, b, 1e-10 * (b.abs().max().item() + 1e-30) * 100)


def modules(ctx):
    """finite differences through pooling, normalisation, activation and wrapper modules"""
    n = ctx.choice("n", [2, 3])
    C, G = ctx.randint("C", 1, 3), ctx.randint("G", 1, 3)
    dims = [ctx.rng.randint(2, 4) for _ in range(n)]
    mods = {
        "bn": lambda: getattr(gnn, f"GBatchNorm{n}d")(C), "in": lambda: getattr(gnn, f"GInstanceNorm{n}d")(C, affine=True),
        "ln": lambda: gnn.GLayerNorm(dims[-1]), "gelu": lambda: gnn.GGELU(ctx.choice("approximate", ["none", "tanh"])),
        "lrelu": lambda: gnn.GLeakyReLU(0.3, ctx.flip("inplace")), "relu": lambda: gnn.GReLU(ctx.flip("inplace")),
        "wrap": lambda: gnn.GWrap(nn.Sequential(nn.Linear(dims[-1], 3), nn.Tanh())),
        "maxs": lambda: getattr(gnn, f"GMaxSpatialPool{n}d")(2, stride=1), "avgs": lambda: getattr(gnn, f"GAvgSpatialPool{n}d")(2, stride=1),
        "amaxs": lambda: getattr(gnn, f"GAdaptiveMaxSpatialPool{n}d")(2), "aavgs": lambda: getattr(gnn, f"GAdaptiveAvgSpatialPool{n}d")(1),
        "maxg": gnn.GMaxGroupPool, "avgg": gnn.GAvgGroupPool, "maxgl": gnn.GMaxGlobalPool, "avggl": gnn.GAvgGlobalPool,
    }
    name = ctx.choice("module", mods)
    m = mods[name]().double()
    # distinct values, so that finite differences do not cross a kink
    N = ctx.randint("N", 1, 2)
    size = N * C * G * torch.tensor(dims).prod().item()
    x = (torch.randperm(size).to(D) - size / 2 + 0.25).view(N, C, G, *dims) / size * 4
    x.requires_grad_()
    H = torch.zeros(G, 1, dtype=D)

    def f(x):
        out = m(x * 1.0 if getattr(m, "inplace", False) else x, H)  # in-place modules need a non-leaf
        return out[0] if isinstance(out, tuple) else out

    y = f(x)
    c = torch.randn_like(y)
    ps = [x] + list(m.parameters())
    gs = torch.autograd.grad((c * y).sum(), ps)
    h = 1e-6
    for p, g in zip(ps, gs):
        v = torch.randn_like(p).clamp(-3, 3)
        keep = p.detach().clone()
        with torch.no_grad():
            p.copy_(keep + h * v)
            a = f(x)
            p.copy_(keep - h * v)
            b = f(x)
            p.copy_(keep)
        lhs, rhs = ((a - b) * c).sum() / (2 * h), (g * v).sum()
        ctx.close("finite-difference:" + name, rhs, lhs, 2e-5 * max(1.0, (c.abs().sum() * v.abs().max()).item()))
    ctx.event("directional-derivatives", len(ps))


def network(ctx):
    """directional derivative of a whole network, all parameters at once"""
    from gv.checks.c17 import Net

    fam = ctx.choice("fam", list(L.FAM))
    depth = 2
    net = Net(ctx, fam, depth).to(D)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.randn_like(p) * 0.5)
    net.eval()
    ctx.describe(layout=net.layout)
    for i, m in enumerate(net.mods):  # smooth layers only
        if type(m) in (gnn.GReLU, gnn.GLeakyReLU) or "Max" in type(m).__name__:
            net.mods[i] = gnn.GGELU()
    net.glob, net.group = gnn.GAvgGlobalPool(), gnn.GAvgGroupPool()
    grids = [L.rand_H(ctx, fam, 2) for _ in range(depth)]
    x = torch.randn(1, net.specs[0].cin, *(4,) * net.n, dtype=D)

    def loss():
        y, d = net(x, grids)
        return d.square().sum() + y.sin().mean()

    ps = list(net.parameters())
    l = loss()
    gs = torch.autograd.grad(l, ps, allow_unused=True)
    ctx.check("every-parameter-trains", all(g is not None for g in gs))
    vs = [torch.randn_like(p) for p in ps]
    h = 1e-5
    with torch.no_grad():
        vals = []
        for t in (h, -2 * h, h):
            for p, v in zip(ps, vs):
                p.add_(t * v)
            vals.append(loss().item())
    num = (vals[0] - vals[1]) / (2 * h)
    ana = sum((g * v).sum().item() for g, v in zip(gs, vs))
    mag = sum((g * v).abs().sum().item() for g, v in zip(gs, vs)) + abs(l.item())
    ctx.close("network-derivative", ana, num, 1e-3 * mag + 1e-8)


def directional(ctx, what, f, t, g, curve, v, h, tol, smooth=1e-4):
    """<g, v> against the slope of f along curve at 0, unless f has a kink there"""
    with torch.no_grad():
        a2, a1, z, b1, b2 = (f(curve(e)).item() for e in (2 * h, h, 0, -h, -2 * h))
    fd, fd2 = (a1 - b1) / (2 * h), (a2 - b2) / (4 * h)
    rhs = 0.0 if g is None else (g * v).sum().item()
    scale = (0.0 if g is None else (g * v).abs().sum().item()) + abs(fd) + t + 1e-9
    if abs(fd - fd2) > smooth * scale or abs(a1 + b1 - 2 * z) / h > smooth * scale:
        ctx.event("kink")
        return
    ctx.close(what, rhs, fd, tol * scale)


def elements(ctx):
    """gradients with respect to the group elements of the input and output grid (off singular configurations)"""
    s, m, hi, ho, x = c20.draw(ctx, gmode="rbf", smode="bilinear", permute=ctx.flip("permute", 0.3))
    seed = ctx.rng.randrange(1 << 30)
    hi, ho = (L.rand_H(ctx, s.fam, len(h), "haar") for h in (hi, ho))
    if ctx.flip("eval", 0.2):
        m.eval()
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn_like(p))
    x = torch.randn(x.shape, dtype=D)

    def f(a, b):
        torch.manual_seed(seed)
        return L.run(ctx, m, s, x, a, b)[0]

    y0 = f(hi, ho).detach()
    c = torch.randn_like(y0)
    for which in ["out"] if s.kind == "lift" else ["in", "out"]:
        H = hi if which == "in" else ho
        if s.fam in ("SE2", "E2"):
            v = torch.randn_like(H)
            if s.E:
                v[:, 0] = 0
            curve = lambda t: H + t * v
        else:
            A = torch.randn(len(H), 3, 3, dtype=D)
            A = A - A.mT
            R = H[:, 1:].unflatten(-1, (3, 3)) if s.E else H
            at = lambda R: torch.cat((torch.zeros(len(H), 1, dtype=D), R.flatten(1)), 1) if s.E else R
            v = at(A @ R)
            curve = lambda t: H + at(torch.linalg.matrix_exp(t * A) @ R - R)
        Hr = H.clone().requires_grad_()
        y = f(Hr, ho) if which == "in" else f(hi, Hr)
        ctx.close("elements-response", y, y0, 1e-10 * (y0.abs().max().item() + 1e-30))
        g = torch.autograd.grad((c * y).sum(), Hr, allow_unused=True)[0] if y.requires_grad else None
        if g is not None:
            ctx.check("elements-finite", torch.isfinite(g).all(), f"{which}_H")
        loss = lambda H: (c * (f(H, ho) if which == "in" else f(hi, H))).sum()
        directional(ctx, f"elements:{s.kind}{s.fam}", loss, 1e-5 * (c * y0).abs().sum().item(), g, curve, v, 1e-5, 1e-3)


# these raise on backward (in-place computations), which is no wrong gradient
RAISES = {"so3.matrix_to_euler", "so3.quat_to_euler", "interpolation.BCC"}
# singular at elements that are drawn, see C19 for their values
SINGULAR = {"so3.quaternion_log", "so3.geodesic_distance", "so3.so3_log", "so2.geodesic_distance_euclid", "s2.geodesic_distance_s2"}

# clamped off the sphere: only moves along it are smooth
UNIT = {"so2.geodesic_distance_euclid", "s2.geodesic_distance_s2"}


def second(ctx, what, f, curve, v, h=1e-5):
    """the derivative of the slope along v against differences of the slopes, unless there is a kink"""

    def slope(t, graph=False):
        b = curve(t).detach().requires_grad_()
        g = torch.autograd.grad(f(b), b, create_graph=graph)[0]
        return b, g

    u = torch.randn_like(v)
    b, g = slope(0.0, True)
    got = 0.0
    if g.requires_grad:
        d = torch.autograd.grad((g * u).sum(), b, allow_unused=True)[0]
        got = 0.0 if d is None else (d * v).sum().item()
    a2, a1, z, b1, b2 = ((slope(t)[1] * u).sum().item() for t in (2 * h, h, 0.0, -h, -2 * h))
    fd, fd2 = (a1 - b1) / (2 * h), (a2 - b2) / (4 * h)
    scale = abs(got) + abs(fd) + (g * u).abs().sum().item() + 1e-6
    if not math.isfinite(scale) or abs(fd - fd2) > 1e-5 * scale or abs(a1 + b1 - 2 * z) / h > 1e-2 * scale:
        ctx.event("kink")
        return
    ctx.close(what, got, fd, 1e-3 * scale)


def functions(ctx):
    """finite differences through every function of groups and interpolation"""
    T = FUNCTIONS(ctx.rng, D)
    T.pop("repulsion.repulse")
    X, Y = (nn.functional.normalize(torch.randn(3, 3, dtype=D), dim=-1) for _ in range(2))
    T["s2.geodesic_distance_s2"] = (T["s2.geodesic_distance_s2"][0], X, Y)
    for name in ctx.rng.sample(sorted(T), 12):
        f, *args = T[name]
        leaves = [a.detach().clone().requires_grad_() for a in args]
        listed = lambda o: o if isinstance(o, (tuple, list)) else [o]
        out = listed(f(*leaves))
        cs = [torch.randn_like(o) for o in out]
        loss = lambda o: sum((c * a).sum() for c, a in zip(cs, listed(o)))
        l = loss(out)
        for j, a in enumerate(args):
            g = None
            if l.requires_grad:
                try:
                    g = torch.autograd.grad(l, leaves[j], allow_unused=True, retain_graph=True)[0]
                except RuntimeError:
                    if name not in RAISES:
                        raise
                    ctx.event("not-differentiable")
                    continue
            if g is not None and not torch.isfinite(g).all() and name in SINGULAR:
                ctx.event("singular")
                continue
            v = torch.randn_like(a)
            if name[:2] in ("o2", "o3") and a.ndim == 2 and a.shape[1] in (2, 10):
                v[..., 0] = 0
            curve = lambda t: a + t * v
            if name in UNIT:
                v = v - (v * a).sum(-1, keepdim=True) * a
                curve = lambda t: nn.functional.normalize(a + t * v, dim=-1)
            if g is not None and g.abs().max() > 0 and ctx.rng.random() < 0.5:
                second(ctx, "second-derivative:" + name.split(":")[0], lambda b: loss(f(*args[:j], b, *args[j + 1:])), curve, v)
            directional(ctx, "function:" + name.split(":")[0], lambda b: loss(f(*args[:j], b, *args[j + 1:])), 1e-9, g, curve, v, 1e-6, 1e-4, 1e-5)


FAMILIES = [
    Family("elements", elements, 120, 2500),
    Family("functions", functions, 100, 2000),
    Family("adjoint", adjoint, 280, 5000),
    Family("reach", reach, 160, 2500),
    Family("partial", partial, 100, 1800),
    Family("subgroup", subgroup, 120, 2000),
    Family("modules", modules, 200, 3000),
    Family("network", network, 60, 1000),
]
