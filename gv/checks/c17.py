"""C17 whole networks: invariant descriptors, equivariant feature maps"""
import torch
import torch.nn as nn

from gconv import gnn
from gv import layers as L
from gv.checks import c10
from gv.core import Family
from gv.refs import D

PROPERTY = "C17"


def nonlin(ctx, C, n, G):
    r = ctx.rng.random()
    if r < 0.3:
        return getattr(gnn, f"GBatchNorm{n}d")(C)
    if r < 0.5:
        return getattr(gnn, f"GInstanceNorm{n}d")(C, affine=True)
    if r < 0.6:
        return gnn.GWrap(nn.Tanh())
    if r < 0.75:
        return gnn.GGELU()
    if r < 0.9:
        return gnn.GLeakyReLU(0.1)
    return gnn.GReLU()


class Net(nn.Module):
    """lifting, group convolutions with their own output grids, element-wise layers, pooling"""

    def __init__(self, ctx, fam, depth):
        super().__init__()
        self.fam, self.n = fam, L.DIM[fam]
        C = [ctx.rng.randint(1, 2)] + [ctx.rng.randint(2, 3) for _ in range(depth)]
        mods, self.specs, self.convs = [], [], []
        for i in range(depth):
            k = ctx.rng.choice([1, 3, 3])
            s = L.spec(ctx, "lift" if i == 0 else ctx.rng.choice(["sep", "conv"]), fam, cin=C[i], cout=C[i + 1], groups=1,
                       k=k, padding=k // 2, stride=1, dilation=1, padding_mode=ctx.rng.choice(["zeros", "replicate", "circular"]),
                       smode="bilinear", gmode="rbf", permute=False, mask=ctx.rng.random() < 0.6)
            m = L.build(s)
            mods.append(m)
            self.specs.append(s)
            self.convs.append(len(mods) - 1)
            for _ in range(ctx.rng.randint(0, 2)):
                mods.append(nonlin(ctx, C[i + 1], self.n, None))
            if ctx.rng.random() < 0.25:
                w = ctx.rng.choice(["Max", "Avg"])
                mods.append(getattr(gnn, f"G{w}SpatialPool{self.n}d")(3, stride=1, padding=1))
        self.mods = nn.ModuleList(mods)
        self.group = getattr(gnn, f"G{ctx.rng.choice(['Max', 'Avg'])}GroupPool")()
        self.glob = getattr(gnn, f"G{ctx.rng.choice(['Max', 'Avg'])}GlobalPool")()
        self.layout = [type(m).__name__ for m in mods] + [type(self.group).__name__, type(self.glob).__name__]

    def forward(self, x, grids):
        H, grids = None, list(grids)
        for m in self.mods:
            if hasattr(m, "kernel"):
                out = grids.pop(0)
                x, H = m(x, out) if H is None else m(x, H, out)
            else:
                x, H = m(x, H)
        return self.group(x, H), self.glob(x, H)


def make(ctx, fam, depth):
    net = Net(ctx, fam, depth).to(D)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.randn_like(p) * 0.5)
    warm = torch.randn(ctx.size(1, 3, 8), net.specs[0].cin, *(4,) * net.n, dtype=D)
    net.train()
    if ctx.flip("warm"):
        net(warm, [L.rand_H(ctx, fam, 2) for _ in range(depth)])
    net.train(ctx.flip("train", 0.3))
    ctx.describe(layout=net.layout)
    return net


def same(ctx, name, a, b):
    ctx.close(name, a, b, max(b.abs().max().item(), 1e-9) * 2e-7)


def moved_grids(ctx):
    """F(g.x; g.H_1, ..., g.H_L): the group-pooled map moves with g, the global descriptor stays"""
    fam = ctx.choice("fam", list(L.FAM))
    depth = ctx.randint("depth", 1, 3 if L.DIM[fam] == 2 else 2)
    net = make(ctx, fam, depth)
    grids = [L.rand_H(ctx, fam, ctx.size(1, 4, 8)) for _ in range(depth)]
    x = torch.randn(ctx.size(1, 3, 8), net.specs[0].cin, *[ctx.rng.randint(4, 6) for _ in range(net.n)], dtype=D)
    state = {k: v.clone() for k, v in net.state_dict().items()}
    y, d = ctx.call("network", net, x, grids)
    for g, M in ctx.rng.sample(L.symmetries(fam), 2):
        net.load_state_dict(state)
        yg, dg = ctx.call("network", net, L.img_act(M, x), [L.mul(fam, g, h) for h in grids])
        same(ctx, "invariant-descriptor", dg, d)
        same(ctx, "equivariant-map", yg, L.img_act(M, y))
    if not d.abs().max() > 0:
        ctx.trivial = True


def fixed_grids(ctx):
    """with grids closed under g nothing has to be moved: an ordinary forward pass is invariant"""
    fam = ctx.choice("fam", list(L.FAM))
    depth = ctx.randint("depth", 1, 2)
    net = make(ctx, fam, depth)
    grids, syms = [], None
    H, ok = c10.closed(ctx, fam)
    grids = [H] * depth
    x = torch.randn(1, net.specs[0].cin, *[ctx.rng.randint(4, 5) for _ in range(net.n)], dtype=D)
    state = {k: v.clone() for k, v in net.state_dict().items()}
    y, d = ctx.call("network", net, x, grids)
    for g, M in ctx.rng.sample(ok, min(2, len(ok))):
        net.load_state_dict(state)
        yg, dg = ctx.call("network", net, L.img_act(M, x), grids)
        same(ctx, "invariant-descriptor-fixed-grid", dg, d)
        same(ctx, "equivariant-map-fixed-grid", yg, L.img_act(M, y))
    if not d.abs().max() > 0:
        ctx.trivial = True


def defaults(ctx):
    """a network built and called exactly as the README does (default grids): SE2/E2 default
    grids contain the quarter turns, so the descriptor is invariant without further care"""
    fam = ctx.choice("fam", ["SE2", "E2"])
    gk = ctx.choice("gk", [4, 8, 12, 16, 20, 24, 4 * ctx.rng.randint(2, 10)])
    if fam == "E2" and ctx.flip("tuple"):
        gk = tuple(4 * ctx.rng.randint(1, 4) for _ in range(2))
        ctx.describe(gk=gk)
    lift, conv = (getattr(gnn, f"GLiftingConv{fam}"), getattr(gnn, ctx.choice("cls", [f"GSeparableConv{fam}", f"GConv{fam}"])))
    a = lift(2, 3, 3, group_kernel_size=gk, padding=1, permute_output_grid=False).double()
    b = conv(3, 3, 3, group_kernel_size=gk, padding=1, permute_output_grid=False, bias=ctx.rng.random() < 0.5).double()
    for m in (a, b):
        L.init(ctx, m)
    x = torch.randn(2, 2, 5, 5, dtype=D)

    def f(x):
        y, H = a(x)
        y, H = gnn.GReLU()(y, H)
        y, H = b(y, H)
        return gnn.GMaxGlobalPool()(y, H), gnn.GAvgGroupPool()(y, H)

    d, y = f(x)
    for g, M in L.symmetries(fam):
        dg, yg = f(L.img_act(M, x))
        # default grids are float32 angles: quarter turns up to 1e-7
        ctx.close("default-network-invariant", dg, d, max(d.abs().max().item(), 1e-9) * 1e-4)
        ctx.close("default-network-equivariant", yg, L.img_act(M, y), max(y.abs().max().item(), 1e-9) * 1e-4)


FAMILIES = [
    Family("moved-grids", moved_grids, 160, 3000),
    Family("fixed-grids", fixed_grids, 90, 1500),
    Family("defaults", defaults, 60, 800),
]
