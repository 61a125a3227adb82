"""C20 persistence: checkpoints, copies, pickles and dtype changes reproduce the layer"""
import copy
import io
import pickle

import torch
import torch.nn as nn

from gconv import gnn
from gconv.geometry import o2, o3, so2, so3
from gconv.geometry.groups import s2
from gconv.gnn.kernels import GSubgroupKernelSO3
from gv import layers as L
from gv.core import Family
from gv.groups import rot3
from gv.refs import D

PROPERTY = "C20"


def draw(ctx, **over):
    over.setdefault("permute", False)
    s = L.spec(ctx, **over)
    m = L.build(s)
    L.init(ctx, m)
    hi, ho = (L.rand_H(ctx, s.fam, ctx.size(1, 4, what=w)).to(s.dtype) for w in ("in_H", "out_H"))
    x = L.features(ctx, s, ctx.size(1, 1, 1, 0, what="N"), L.spatial(ctx, s, lo=2), len(hi))
    ctx.describe(**s.brief())
    return s, m, hi, ho, x


def roundtrip(sd, ctx):
    """through the bytes of a checkpoint file"""
    f = io.BytesIO()
    torch.save(sd, f)
    f.seek(0)
    return torch.load(f, weights_only=True)


def checkpoint(ctx):
    """state_dict -> file -> a freshly built layer of the same configuration: the same function"""
    s, m, hi, ho, x = draw(ctx)
    if ctx.flip("edited-buffers", 0.3):  # a mask or spatial grid of one's own is part of the layer
        with torch.no_grad():
            if m.kernel.mask is not None:
                m.kernel.mask.mul_(torch.rand_like(m.kernel.mask))
            m.kernel.grid_Rn.mul_(0.5 + torch.rand(()).item())
    y, _ = L.run(ctx, m, s, x, hi, ho)
    sd = roundtrip(m.state_dict(), ctx)
    for k, p in m.named_parameters():
        ctx.check("parameters-are-saved", k in sd, k)
    torch.manual_seed(ctx.rng.randrange(1 << 30))
    other = L.build(s)
    how = ctx.choice("loaded-into", ["fresh", "fresh", "evaluated", "frozen", "used", "assigned", "part-of-a-model", "twice"])
    if how == "evaluated":
        other.eval()
    elif how == "frozen":
        other.requires_grad_(False)
    elif how == "used":
        L.run(ctx, other, s, x, hi, ho)
    elif how == "twice":
        other.load_state_dict({k: v + 1 for k, v in sd.items()} if ctx.rng.random() < 0.5 else L.build(s).state_dict())
    if how == "part-of-a-model":
        model = torch.nn.ModuleDict({"head": torch.nn.Linear(2, 2), "body": torch.nn.Sequential(other)})
        full = model.state_dict() | {"body.0." + k: v for k, v in sd.items()}
        res = model.load_state_dict(full, strict=True)
    else:
        with torch.set_grad_enabled(ctx.rng.random() < 0.5):
            res = other.load_state_dict(sd, strict=True, assign=how == "assigned")
    ctx.check("strict-load", not res.missing_keys and not res.unexpected_keys)
    now = other.state_dict()
    ctx.check("loaded-keys", sorted(now) == sorted(sd), f"{sorted(now)} vs {sorted(sd)}")
    for k, v in sd.items():
        ctx.same("loaded-value", now[k], v, key=k)
    ctx.check("loading-keeps-the-mode", other.training == (how != "evaluated") and all(p.requires_grad == (how != "frozen") for p in other.parameters()))
    z, _ = L.run(ctx, other, s, x, hi, ho)
    ctx.equal("checkpoint-response", z, y)
    if s.kind == "lift" or s.E:  # default grids come from the checkpoint too
        a = m(x)[1] if s.kind == "lift" else m(x, hi)[1]
        b = other(x)[1] if s.kind == "lift" else other(x, hi)[1]
        ctx.same("checkpoint-default-grid", b, a)


def grid_in_checkpoint(ctx):
    """the reference grid travels with the checkpoint: a layer built with its own default grid
    takes over a custom one (explicit widths; default widths belong to the constructor)"""
    fam, kind = ctx.choice("fam", list(L.FAM)), ctx.choice("kind", L.KINDS)
    n = (2, 3) if fam in ("E2", "E3") else ctx.choice("n", [2, 4, 6])
    s, m, hi, ho, x = draw(ctx, fam=fam, kind=kind, gk=n, grid=L.ref_grid(ctx, fam, n), width=0.6, width2=0.7)
    y, _ = L.run(ctx, m, s, x, hi, ho)
    s2 = copy.copy(s)
    s2.grid = None
    other = L.build(s2)
    other.load_state_dict(roundtrip(m.state_dict(), ctx))
    ctx.same("grid-restored", other.kernel.grid_H, m.kernel.grid_H)
    z, _ = L.run(ctx, other, s2, x, hi, ho)
    ctx.equal("grid-restored-response", z, y)


def generated_grids(ctx):
    """grids too large for the precomputed table are generated at random: the checkpoint restores them.
    Known finding default-width-not-in-checkpoint, matched only when the restored layer is exactly the
    layer with the saved parameters and grid and the width of the grid it was constructed with."""
    kind = ctx.choice("kind", ("sep", "conv"))
    fam = ctx.choice("fam", ("SE3", "SE3", "E3"))
    n = ctx.randint("n", 25, 30)
    gk = n if fam == "SE3" else (n, 2)
    explicit = ctx.flip("explicit-width", 0.4)
    s = L.Spec(kind, fam, cin=1, cout=2, k=3, gk=gk, width=0.4 if explicit else 0.0, width2=0.4 if explicit else 0.0)
    m, other = L.build(s), L.build(s)
    L.init(ctx, m)
    hi, ho = L.rand_H(ctx, fam, 2), L.rand_H(ctx, fam, 2)
    x = L.features(ctx, s, 1, [3, 3, 3], 2)
    y, _ = L.run(ctx, m, s, x, hi, ho)
    before = other.kernel.grid_H.clone()
    other.load_state_dict(roundtrip(m.state_dict(), ctx))
    ctx.same("generated-grid-restored", other.kernel.grid_H, m.kernel.grid_H)
    z, _ = L.run(ctx, other, s, x, hi, ho)
    scale = max(y.abs().max().item(), 1e-9)
    if (z - y).abs().max().item() <= 1e-11 * scale:
        ctx.event("generated-grid-response")
        return
    ctx.check("generated-grid-response", not explicit, f"differs by {(z - y).abs().max().item():.3e} although the width was given")
    # the mechanism: saved grid and parameters, width of the grid the layer was constructed with
    t = copy.copy(s)
    rots = before[before[:, 0] > 0][:, 1:].unflatten(-1, (3, 3)) if fam == "E3" else before
    refl = before[before[:, 0] < 0][:, 1:].unflatten(-1, (3, 3)) if fam == "E3" else before[:0]
    t.width = L.default_width("SE3", rots)
    t.width2 = L.default_width("SE3", refl)
    K = L.kernel(t, other, hi, ho)
    want = L.apply(t, other, x, K, len(hi), len(ho))
    ctx.close("known-mechanism", z, want, 1e-3 * scale * max(1.0, t.cond * 1e-4))
    ctx.known_finding("default-width-not-in-checkpoint",
                      "a default interpolation width is derived from the randomly generated grid at construction and not restored with it")


def copies(ctx):
    """deepcopy and pickle give independent layers with the same response"""
    s, m, hi, ho, x = draw(ctx)
    y, _ = L.run(ctx, m, s, x, hi, ho)
    how = ctx.choice("how", ["deepcopy", "pickle", "torch.save"])
    if how == "deepcopy":
        c = copy.deepcopy(m)
    elif how == "pickle":
        c = pickle.loads(pickle.dumps(m))
    else:
        f = io.BytesIO()
        torch.save(m, f)
        f.seek(0)
        c = torch.load(f, weights_only=False)
    ctx.equal("copy-response", L.run(ctx, c, s, x, hi, ho)[0], y)
    with torch.no_grad():
        for p in c.parameters():
            p.mul_(-2.0)
        for b in c.buffers():  # and back after the check
            b.add_(1.0)
    kept = [b.clone() for b in m.buffers()]
    ctx.equal("copy-is-independent", L.run(ctx, m, s, x, hi, ho)[0], y)
    with torch.no_grad():
        for b, k in zip(c.buffers(), kept):
            b.copy_(k)
    t = -2.0 if s.kind != "sep" else 4.0
    b = (m.bias.view(1, -1, *(1,) * (s.n + 1)) if s.bias else 0.0)
    ctx.close("copy-uses-its-own-parameters", L.run(ctx, c, s, x, hi, ho)[0], (y - b) * t - 2.0 * b,
              1e-9 * max(y.abs().max().item(), 1e-9) + 1e-9)
    # training the copy's parameters reaches the copy only
    z, _ = L.run(ctx, c, s, x, hi, ho)
    z.sum().backward()
    ctx.check("copy-has-its-own-gradients", all(p.grad is None for p in m.parameters()) and all(p.grad is not None for p in c.parameters()))


def casts(ctx, m, state, dtype):
    """a conversion rounds every tensor of the state, and changes nothing else"""
    now = m.state_dict()
    ctx.check("conversion-keeps-the-state", list(now) == list(state), f"{list(now)} {list(state)}")
    for k, v in state.items():
        ctx.same("conversion-rounds", now[k], v.to(dtype))


def dtypes(ctx):
    """float64 -> float32 -> float64: same function up to float32 rounding; input dtype is respected"""
    s, m, hi, ho, x = draw(ctx, gmode="rbf", smode="bilinear", width=0.6, width2=0.6)
    for p in m.parameters():
        p.data = p.data / max(p.data.abs().max().item(), 1e-12)
    y, _ = L.run(ctx, m, s, x, hi, ho)
    state = {k: v.clone() for k, v in m.state_dict().items()}
    f = copy.deepcopy(m).float()
    casts(ctx, f, state, torch.float32)
    s2 = copy.copy(s)
    s2.dtype = torch.float32
    z, H = L.run(ctx, f, s2, x.float(), hi.float(), ho.float())
    ctx.check("float32-stays-float32", z.dtype == torch.float32 and H.dtype == torch.float32, f"{z.dtype} {H.dtype}")
    terms = s.cin * len(hi) * s.k**s.n
    ctx.close("float32-agrees", z, y, (1e-5 if s.kind == "lift" else 1e-3) * terms * max(x.abs().max().item(), 1e-9) + 1e-6)
    casts(ctx, copy.deepcopy(f).double(), {k: v.float() for k, v in state.items()}, torch.float64)
    casts(ctx, copy.deepcopy(m).to(torch.bfloat16), state, torch.bfloat16)
    g = m.double()
    casts(ctx, g, state, torch.float64)
    ctx.equal("double-again", L.run(ctx, g, s, x, hi, ho)[0], y)


def low_precision(ctx):
    """a layer converted to float16 or bfloat16 computes in that dtype, with and without random output
    grids: the response of the same layer in float64 on the returned grid, up to that dtype's rounding
    (rbf interpolation is left out: torch has no linear solver in half precision)"""
    dt = ctx.choice("low", [torch.float16, torch.bfloat16])
    eps = torch.finfo(dt).eps
    s = L.spec(ctx, gmode="nearest", smode="bilinear", padding_mode="zeros", permute=ctx.rng.random() < 0.6)
    m = L.build(s)
    for p in m.parameters():
        p.data = (torch.rand_like(p) * 2 - 1).to(p.dtype)
    hi, ho = (L.rand_H(ctx, s.fam, ctx.rng.randint(1, 3)).to(dt) for _ in range(2))
    x = L.features(ctx, s, 1, L.spatial(ctx, s, lo=2), len(hi)).clamp(-2, 2).to(dt)
    h = copy.deepcopy(m).to(dt)
    for k, b in list(h.named_parameters()) + list(h.named_buffers()):
        ctx.check("converted", b.dtype == dt or not b.is_floating_point(), k)
    given = ctx.flip("given", 0.7)
    ctx.describe(**s.brief())
    args = ((x,) if s.kind == "lift" else (x, hi)) + ((ho,) if given else ())
    # the bfloat16 conv3d of mkldnn in this torch version reads uninitialised memory for short axes
    with torch.backends.mkldnn.flags(enabled=False):
        y, H = ctx.call(f"low:{s.kind}{s.fam}", h, *args)
    ctx.check("low-precision-is-kept", y.dtype == dt and H.dtype == dt, f"{y.dtype} {H.dtype}")
    H0 = ho if given else (h.kernel.grid_H if s.kind == "lift" or s.E else hi)
    ctx.check("low-precision-grid-shape", H.shape == H0.shape)
    if not s.permute:
        ctx.same("low-precision-requested-grid", H, H0)
    # elements of the group, up to rounding
    A = L.acts(s.fam, H.double())
    ctx.close("low-precision-elements", A @ A.mT, torch.eye(s.n, dtype=D).expand_as(A), 16 * eps)
    d = copy.deepcopy(h).double()
    s2 = copy.copy(s)
    s2.tie = 0.1 if dt == torch.float16 else 0.3
    try:
        K = L.kernel(s2, d, hi.double(), H.double())
    except L.Ambiguous:
        return
    want = L.apply(s2, d, x.double(), K, len(hi), len(H))
    terms = (s.cin // s.groups) * (len(hi) if s.kind != "lift" else 1) * s.k**s.n
    ctx.close("low-precision-response", y, want, eps * (12 * s.k * terms + 4))


def autocast(ctx):
    """mixed precision: under torch.autocast(bfloat16) a float32 layer keeps its parameters and gradients
    in float32 and gives the response and the weight gradients of the same layer in float64, up to
    bfloat16 rounding"""
    dt = torch.bfloat16
    eps = torch.finfo(dt).eps
    s = L.spec(ctx, gmode="nearest", smode="bilinear", padding_mode="zeros", permute=ctx.rng.random() < 0.4)
    s.dtype = torch.float32
    m = L.build(s).float()
    for p in m.parameters():
        p.data = (torch.rand_like(p) * 2 - 1).to(dt).float()
    hi, ho = (L.rand_H(ctx, s.fam, ctx.rng.randint(1, 3)).float() for _ in range(2))
    x = L.features(ctx, s, 1, L.spatial(ctx, s, lo=2), len(hi)).clamp(-2, 2).to(dt).float()
    given = ctx.flip("given", 0.7)
    ctx.describe(**s.brief())
    args = ((x,) if s.kind == "lift" else (x, hi)) + ((ho,) if given else ())
    keep = {k: (v.dtype, v.clone()) for k, v in m.state_dict().items()}
    with torch.backends.mkldnn.flags(enabled=False):
        with torch.autocast("cpu", dt):
            y, H = ctx.call(f"autocast:{s.kind}{s.fam}", m, *args)
        g = torch.randn(y.shape).to(dt)
        ctx.call("autocast-backward", y.backward, g.to(y.dtype))
    for k, v in m.state_dict().items():
        ctx.check("autocast-keeps-state", v.dtype == keep[k][0] and torch.equal(v, keep[k][1]), k)
    for k, p in m.named_parameters():
        ctx.check("autocast-gradient-dtype", p.grad is not None and p.grad.dtype == torch.float32 and p.grad.isfinite().all(), k)
    H0 = ho if given else (m.kernel.grid_H if s.kind == "lift" or s.E else hi)
    ctx.check("autocast-grid-shape", H.shape == H0.shape)
    if not s.permute:
        ctx.same("autocast-requested-grid", H, H0)
    A = L.acts(s.fam, H.double())
    ctx.close("autocast-elements", A @ A.mT, torch.eye(s.n, dtype=D).expand_as(A), 16 * eps)
    d = copy.deepcopy(m).double()
    d.zero_grad()
    s2 = copy.copy(s)
    s2.dtype = torch.float64
    s2.tie = 0.3
    try:
        K = L.kernel(s2, d, hi.double(), H.double())
    except L.Ambiguous:
        return
    want = L.apply(s2, d, x.double(), K, len(hi), len(H))
    terms = (s.cin // s.groups) * (len(hi) if s.kind != "lift" else 1) * s.k**s.n
    ctx.close("autocast-response", y, want, eps * (12 * s.k * terms + 4))


FACTORIES = {
    "so2.uniform_grid": lambda n: so2.uniform_grid(n),
    "so2.random_grid": lambda n: so2.random_grid(n),
    "so3.uniform_grid": lambda n: so3.uniform_grid(n, "quat", steps=2, show_pbar=False),
    "so3.uniform_grid-matrix": lambda n: so3.uniform_grid(n, "matrix", steps=2, show_pbar=False),
    "so3.uniform_grid-euler": lambda n: so3.uniform_grid(n, "euler", steps=2, show_pbar=False),
    "so3.random_quat": lambda n: so3.random_quat(n),
    "so3.random_matrix": lambda n: so3.random_matrix(n),
    "so3.random_euler": lambda n: so3.random_euler(n),
    "so3.cyclic": lambda n: so3.cyclic(n, "yxz"[n % 3]),
    "o2.uniform_grid": lambda n: o2.uniform_grid((n, n)),
    "o2.random_grid": lambda n: o2.random_grid(n),
    "o3.uniform_grid": lambda n: o3.uniform_grid((n, n)),
    "o3.random_grid": lambda n: o3.random_grid(n),
    "s2.uniform_grid_s2": lambda n: s2.uniform_grid_s2(n, steps=2, show_pbar=False),
    "s2.random_s2": lambda n: s2.random_s2((n,)),
}


def default_dtype(ctx):
    """with torch.set_default_dtype(float64) the factories give float64 grids, whichever way they are
    produced, and a layer built then is a float64 layer with the response of one converted to float64"""
    s = L.spec(ctx)
    s.dtype = torch.float64
    hi, ho = (L.rand_H(ctx, s.fam, ctx.size(1, 4, what=w)).double() for w in ("in_H", "out_H"))
    x = L.features(ctx, s, 1, L.spatial(ctx, s, lo=2), len(hi))
    ctx.describe(**s.brief())
    args = ((x,) if s.kind == "lift" else (x, hi)) + ((ho,) if ctx.flip("given", 0.6) else ())
    seed = ctx.rng.randrange(1 << 30)
    torch.set_default_dtype(torch.float64)
    try:
        name = ctx.choice("factory", list(FACTORIES))
        n = ctx.choice("n", [1, 2, 4, 8, 12, 24, 30])
        g = ctx.call("default:" + name, FACTORIES[name], n)
        ctx.check("factory-default-dtype", g.dtype == torch.float64, f"{name}({n}) gives {g.dtype}")
        m = ctx.call("default:build", L.construct, s)
        for k, v in m.state_dict().items():
            ctx.check("built-in-default-dtype", v.dtype == torch.float64 or k == "kernel.mask", k)
        torch.manual_seed(seed)
        y, H = ctx.call(f"default:{s.kind}{s.fam}", m, *args)
        torch.manual_seed(seed)
    finally:
        torch.set_default_dtype(torch.float32)
    ctx.check("default-dtype-kept", y.dtype == H.dtype == torch.float64, f"{y.dtype} {H.dtype}")
    s2 = copy.copy(s)
    try:
        K = L.kernel(s2, m, hi, H)
    except L.Ambiguous:
        return
    ctx.close("default-dtype-response", y, L.apply(s2, m, x, K, len(hi), len(H)), 2e-3 * max(1.0, getattr(s2, "cond", 1.0) * 1e-4) * max(y.abs().max().item(), 1e-9))


class Stack(nn.Module):
    def __init__(self, layers):
        super().__init__()
        self.layers = nn.ModuleList(layers)


def models(ctx):
    """layers inside a model: parameters, buffers and optimisers see all of them"""
    specs, mods = [], []
    for _ in range(ctx.randint("layers", 1, 4)):
        s = L.spec(ctx)
        specs.append(s)
        mods.append(L.build(s))
    mods.append(gnn.GBatchNorm2d(3))
    mods.append(gnn.GWrap(nn.Linear(2, 2)))
    st = Stack(mods)
    want = sum((2 if s.kind == "sep" else 1) + s.bias for s in specs) + 4
    ctx.check("all-parameters-registered", len(list(st.parameters())) == want, f"{len(list(st.parameters()))} instead of {want}")
    sd = roundtrip(st.state_dict(), ctx)
    st2 = Stack([L.build(s) for s in specs] + [gnn.GBatchNorm2d(3), gnn.GWrap(nn.Linear(2, 2))])
    st2.load_state_dict(sd)
    for (k, a), (k2, b) in zip(st.state_dict().items(), st2.state_dict().items()):
        ctx.check("same-keys", k == k2)
        ctx.same("model-restored", b, a.to(b.dtype), key=k)
    ctx.event("modules", len(mods))
    repr(st)


def resume(ctx):
    """train, save, restore, train on: the same trajectory as without the interruption"""
    s, m, hi, ho, x = draw(ctx)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn_like(p) * 0.3)
    with torch.no_grad():
        shape = L.run(ctx, m, s, x, hi, ho)[0].shape
    which = ctx.choice("norm", [None, "GBatchNorm", "GBatchNorm", "GInstanceNorm"] if shape[2:].numel() > 1 else [None])
    kw = dict(momentum=ctx.choice("momentum", [0.1, 0.6] + [None] * 2 * (which == "GBatchNorm")), affine=ctx.flip("affine"), track_running_stats=True)

    def network(layer):
        norm = getattr(gnn, f"{which}{s.n}d")(s.cout, **kw).to(s.dtype) if which else nn.Identity()
        return nn.ModuleDict({"layer": layer, "norm": norm})

    def respond(m):
        y, H = L.run(ctx, m["layer"], s, x, hi, ho)
        return m["norm"](y, H)[0] if which else y

    m = network(m)
    opt = torch.optim.Adam(m.parameters(), lr=1e-2)
    steps, cut = 4, ctx.randint("cut", 1, 3)

    def step(m, opt):
        opt.zero_grad()
        (respond(m) - 0.3).square().mean().backward()
        opt.step()

    for i in range(steps):
        if i == cut:
            saved = roundtrip({"m": m.state_dict(), "o": opt.state_dict()}, ctx)
        step(m, opt)
    m2 = network(L.build(s))
    opt2 = torch.optim.Adam(m2.parameters(), lr=1e-2)
    m2.load_state_dict(saved["m"])
    opt2.load_state_dict(saved["o"])
    for i in range(cut, steps):
        step(m2, opt2)
    m.eval(), m2.eval()
    with torch.no_grad():
        a = respond(m)
        ctx.close("resumed-network", respond(m2), a, 1e-8 * max(1.0, a.abs().max().item()))
    for (k, a), b in zip(m.state_dict().items(), m2.state_dict().values()):
        ctx.close("resumed-training", b, a, 1e-8 * max(1.0, a.abs().max().item()), key=k)


FAMILIES = [
    Family("checkpoint", checkpoint, 240, 4000),
    Family("grid-in-checkpoint", grid_in_checkpoint, 100, 1500),
    Family("generated-grids", generated_grids, 16, 200),
    Family("copies", copies, 160, 2500),
    Family("dtypes", dtypes, 120, 2000),
    Family("low-precision", low_precision, 160, 2500),
    Family("autocast", autocast, 160, 2500),
    Family("default-dtype", default_dtype, 160, 2500),
    Family("models", models, 40, 500),
    Family("resume", resume, 80, 1200),
]
