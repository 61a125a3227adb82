"""C25 computations stay on the device of their inputs (on a virtual second device, gv/vdev.py)"""
import torch
import torch.nn as nn

from gconv import gnn
from gconv.geometry import interpolation, o2, o3, repulsion, so2, so3
from gconv.geometry.groups import s2
from gconv.gnn import functional as gF
from gv import layers as L
from gv import vdev
from gv.checks import c17
from gv.core import Family
from gv.refs import D
from gv.tables import FUNCTIONS, MODULES
from gv.vdev import NAME, Device, fetch, is_remote, send

PROPERTY = "C25"


def tensors(obj):
    return [t for t in torch.utils._pytree.tree_flatten(obj)[0] if isinstance(t, torch.Tensor)]


def same(ctx, monitor, there, here):
    """results on the device with the values of those on the CPU"""
    a, b = tensors(there), tensors(here)
    ctx.check(monitor + "-count", len(a) == len(b), f"{len(a)} tensors instead of {len(b)}")
    for p, q in zip(a, b):
        ctx.check("on-the-device", is_remote(p.detach()), f"{monitor}: a result of shape {tuple(p.shape)} is not on the device of the inputs")
        v = fetch(p)
        ctx.check("dtype-as-on-cpu", v.dtype == q.dtype, f"{v.dtype} instead of {q.dtype}")
        if v.is_floating_point():
            ctx.equal(monitor, v.nan_to_num(1e30), q.detach().nan_to_num(1e30))
        else:
            ctx.same(monitor, v, q.detach())


def seeded(seed, f, *args, **kw):
    torch.manual_seed(seed)
    return f(*args, **kw)


# ------------------------------------------------------------------ factories
def FACTORIES(r):
    n, m = r.randint(1, 24), r.randint(1, 12)
    small = dict(steps=r.randint(1, 4), show_pbar=False)
    shape = r.choice([(3,), (2, 2), torch.Size([4]), (1,)])
    return {
        "so2.uniform_grid": (so2.uniform_grid, (n,), {}),
        "so2.random_grid": (so2.random_grid, (n,), {}),
        "o2.uniform_grid": (o2.uniform_grid, ((n, m),), {}),
        "o2.random_grid": (o2.random_grid, (n,), {}),
        "o3.uniform_grid": (o3.uniform_grid, ((n, m),), {}),
        "o3.uniform_grid:one-coset": (o3.uniform_grid, (r.choice([(n, 0), (0, n)]),), {}),
        "o3.uniform_grid:matrix": (o3.uniform_grid, ((n, m),), dict(matrix_only=True)),
        "o3.random_grid": (o3.random_grid, (r.choice([n, shape]),), {}),
        "so3.uniform_grid": (so3.uniform_grid, (n, r.choice(["quat", "matrix"])), dict(show_pbar=False)),
        "so3.uniform_grid:empty": (so3.uniform_grid, (0, "matrix"), {}),
        "so3.uniform_grid:generated": (so3.uniform_grid, (r.randint(25, 30), r.choice(["quat", "matrix", "euler"])), small),
        "so3.random_quat": (so3.random_quat, (r.choice([n, shape]),), {}),
        "so3.random_matrix": (so3.random_matrix, (r.choice([n, shape]),), {}),
        "so3.random_euler": (so3.random_euler, (r.choice([n, shape]),), {}),
        "so3.identity": (so3.identity, (), {}),
        "so3.klein_group": (so3.klein_group, (), {}),
        "so3.tetrahedral": (so3.tetrahedral, (), {}),
        "so3.octahedral": (so3.octahedral, (), {}),
        "so3.icosahedral": (so3.icosahedral, (), {}),
        "so3.cyclic": (so3.cyclic, (n, r.choice("xyzXYZ")), {}),
        "so3.cyclic_axis": (r.choice([so3.cyclic_x, so3.cyclic_y, so3.cyclic_z]), (n,), {}),
        "s2.random_s2": (s2.random_s2, (shape,), {}),
        "s2.uniform_grid_s2": (s2.uniform_grid_s2, (n + 1, r.choice(["euclidean", "spherical", "euler", "matrix", "quat"])),
                               dict(set_alpha_as_neg_gamma=r.random() < 0.5, **small)),
        "create_grid_R2": (gF.create_grid_R2, (r.randint(1, 7),), {}),
        "create_grid_R3": (gF.create_grid_R3, (r.randint(1, 5),), {}),
        "create_spherical_mask_R2": (gF.create_spherical_mask_R2, (r.randint(1, 7),), {}),
        "create_spherical_mask_R3": (gF.create_spherical_mask_R3, (r.randint(1, 5),), {}),
    }


def factories(ctx):
    """grids, elements and masks asked for on a device, by argument or as the default device, are made there"""
    table = FACTORIES(ctx.rng)
    name = list(table)[ctx.index % len(table)]
    f, args, kw = table[name]
    how = ctx.choice("how", ["argument", "default"])
    ctx.describe(function=name, args=repr(args))
    seed = ctx.rng.randrange(2**31)
    here = seeded(seed, f, *args, **kw)
    with Device():
        if how == "argument":
            there = seeded(seed, f, *args, device=ctx.rng.choice([NAME, torch.device(NAME)]), **kw)
        else:
            with torch.device(NAME):
                there = seeded(seed, f, *args, **kw)
        ctx.event("call:" + name)
        same(ctx, "created-there", there, here)
        back = seeded(seed, f, *args, **kw)
    for t in tensors(back):
        ctx.check("created-here", not is_remote(t) and t.device.type == "cpu", "a later grid without a device is not on the CPU")
        ctx.same("created-here", t, here)


def cached(ctx):
    """a grid generated and cached on one device is available on every other"""
    n = 41 + ctx.index  # each case has a size of its own, the cache lives as long as the process
    param = ctx.choice("param", ["quat", "matrix"])
    ctx.describe(n=n)
    with Device():
        first, order = ctx.choice("first", ["cpu", NAME]), [None, NAME, "cpu", NAME]
        g = so3.uniform_grid(n, param, steps=2, show_pbar=False, device=first, cache_grid=True)
        values = fetch(g)
        ctx.check("cached-there", is_remote(g) == (first == NAME), f"generated on {first}, returned elsewhere")
        ctx.rng.shuffle(order)
        for dev in order:
            h = so3.uniform_grid(n, param, show_pbar=False, device=dev)
            ctx.check("cached-there", is_remote(h) == (dev == NAME), f"asked for on {dev}, returned elsewhere")
            ctx.same("cached-values", fetch(h), values)


# ------------------------------------------------------------------ functions
def functions(ctx):
    """functions of group elements, points and signals compute where their arguments are"""
    table = FUNCTIONS(ctx.rng, ctx.choice("dtype", [D, torch.float32]))
    name = list(table)[ctx.index % len(table)]
    f, *args = table[name]
    ctx.describe(function=name, args=repr([tuple(a.shape) for a in args]))
    seed = ctx.rng.randrange(2**31)
    here = seeded(seed, f, *args)
    with Device():
        there = seeded(seed, f, *send(args))
        ctx.event("call:" + name)
        same(ctx, "function", there, here)


# ------------------------------------------------------------------ layers
def place(ctx, m, make):
    """a second layer with the values of the first, on the device, reached in different ways"""
    how = ctx.choice("moved", ["to", "load", "apply"])
    q = make()
    if how == "load":
        q = q.to(NAME)
        q.load_state_dict(m.state_dict() if ctx.rng.random() < 0.5 else send(m.state_dict()))
    else:
        q.load_state_dict(m.state_dict())
        q = q.to(NAME) if how == "to" else q._apply(lambda t: t.to(NAME))
    for a, b in zip(m.modules(), q.modules()):  # default widths belong to the configuration
        if getattr(a, "sample_H_kwargs", None) is not None:
            b.sample_H_kwargs = dict(a.sample_H_kwargs)
    for k, t in q.state_dict().items():
        ctx.check("moved-with-the-layer", is_remote(t.detach()), k)
    for k, t in q.named_buffers():
        ctx.check("moved-with-the-layer", is_remote(t), k)
    return q


def layers(ctx):
    """responses, returned grids, kernels and gradients of every layer on the device are those on the CPU"""
    s = L.spec(ctx, permute=ctx.flip("permute"), dtype=ctx.rng.choice([D, torch.float32]))
    m = L.build(s)
    L.init(ctx, m)
    hi, ho = (L.rand_H(ctx, s.fam, ctx.rng.randint(1, 4)).to(s.dtype) for _ in range(2))
    default = ctx.flip("default-out-grid", 0.4)
    dims = L.spatial(ctx, s)
    x = L.features(ctx, s, ctx.rng.randint(1, 2), dims, len(hi))
    ctx.describe(**s.brief(), dims=dims)
    m.train(ctx.rng.random() < 0.5)
    seed, grad = ctx.rng.randrange(2**31), ctx.flip("grad", 0.7)

    def go(m, x, hi, ho, w):
        args = ([x] if s.kind == "lift" else [x, hi]) + ([] if default else [ho])
        with torch.set_grad_enabled(grad):
            x.requires_grad_(grad)
            y, H = seeded(seed, m, *args)
        out = [y, H]
        k = m.kernel(ho) if s.kind == "lift" else m.kernel(hi, ho)
        out += list(k) if isinstance(k, tuple) else [k]
        if grad:
            (y * w(y)).sum().backward()
            out += [x.grad] + [p.grad for _, p in sorted(m.named_parameters())]
        return out

    torch.manual_seed(seed + 1)
    v = torch.randn(4096, dtype=D)
    cot = lambda y: v.repeat(y.numel() // 4096 + 1)[: y.numel()].view(y.shape).to(y.dtype)
    here = go(m, x.clone(), hi, ho, cot)
    with Device():
        q = place(ctx, m, lambda: L.build(s)).train(m.training)
        there = go(q, send(x), send(hi), send(ho), lambda y: cot(y).to(NAME))
        for name, a, b in zip(["response", "returned-grid"] + ["kernel-or-gradient"] * 99, there, here):
            ctx.check("gradient-present", (a is None) == (b is None), name)
            if b is not None:
                same(ctx, f"layer:{name}", a, b)
        # and back
        q = q.to("cpu")
        for (k, a), (_, b) in zip(sorted(q.state_dict().items()), sorted(m.state_dict().items())):
            ctx.check("moved-back", not is_remote(a.detach()), k)
            ctx.same("moved-back", a.detach(), b.detach())
        y, H = seeded(seed, q, *([x] if s.kind == "lift" else [x, hi]), *([] if default else [ho]))
        ctx.equal("works-after-moving-back", y, here[0])
    ctx.event("operations", sum(vdev.EVENTS.values()))
    vdev.EVENTS.clear()


def built_there(ctx):
    """a layer built while the device is the default one lives and works there"""
    s = L.spec(ctx, permute=ctx.flip("permute"), dtype=torch.float32)
    s.grid = None
    ctx.describe(**s.brief())
    seed = ctx.rng.randrange(2**31)
    m = seeded(seed, L.build, s)
    hi = L.rand_H(ctx, s.fam, ctx.rng.randint(1, 3)).to(s.dtype)
    x = L.features(ctx, s, 1, L.spatial(ctx, s), len(hi))
    args = [x] if s.kind == "lift" else [x, hi]
    here = seeded(seed, m, *args)
    with Device():
        with torch.device(NAME):
            q = seeded(seed, L.build, s)
        for k, t in [*q.named_parameters(), *q.named_buffers()]:
            ctx.check("built-there", is_remote(t.detach()), k)
        with torch.device(ctx.rng.choice([NAME, "cpu"])):  # the inputs decide, not the default device
            there = seeded(seed, q, *send(args))
        for (k, a), (_, b) in zip(sorted(q.state_dict().items()), sorted(m.state_dict().items())):
            ctx.equal("built-alike", fetch(a), b.detach())
        same(ctx, "built-there-response", there, here)


# ------------------------------------------------------------------ modules and networks
def modules(ctx):
    n, C = ctx.choice("n", [2, 3]), ctx.rng.randint(1, 3)
    table = MODULES(ctx.rng, n, C)
    name = list(table)[ctx.index % len(table)]
    a, kw = table[name]
    ctx.describe(module=name)
    m, q = getattr(gnn, name)(*a, **kw), getattr(gnn, name)(*a, **kw)
    q.load_state_dict(m.state_dict())
    x = torch.randn(2, C, ctx.rng.randint(1, 4), *(4,) * n)
    H = torch.randn(x.shape[2], 2)
    mode = ctx.rng.random() < 0.7
    m.train(mode)

    def go(m, x, H):
        x.requires_grad_(True)
        out = m(x, H)
        y = out[0] if isinstance(out, tuple) else out
        y.square().sum().backward()
        return out, x.grad, [p.grad for p in m.parameters()], list(m.buffers())

    here = go(m, x.clone(), H)
    with Device():
        there = go(q.to(NAME).train(mode), send(x), send(H))
        ctx.event("call:" + name)
        same(ctx, "module", there, here)


def training(ctx):
    """a network trained on the device goes through the same parameters as on the CPU"""
    fam = ctx.choice("fam", list(L.FAM))
    depth = ctx.randint("depth", 1, 2)
    state = ctx.rng.getstate()
    seed = ctx.rng.randrange(2**31)

    def make():
        ctx.rng.setstate(state)
        return seeded(seed, c17.Net, ctx, fam, depth).to(D)

    net = make()
    n = net.n
    xs = [torch.randn(ctx.rng.randint(1, 2), net.specs[0].cin, *(4,) * n, dtype=D) for _ in range(3)]
    grids = [L.rand_H(ctx, fam, ctx.rng.randint(1, 3)) for _ in range(depth)]
    optimizer = ctx.choice("optimizer", [torch.optim.SGD, torch.optim.Adam])

    def go(net, xs, grids):
        opt = optimizer(net.parameters(), lr=1e-3)
        losses = []
        for x in xs:
            a, b = net(x, grids)
            loss = b.square().mean() + a.square().mean()
            opt.zero_grad()
            loss.backward()
            opt.step()
            losses.append(loss.detach())
        return losses, list(net.parameters()), list(net.buffers())

    after = ctx.rng.getstate()
    with Device():
        q = make()
        ctx.rng.setstate(after)
        q.load_state_dict(net.state_dict())
        for a, b in zip(net.modules(), q.modules()):
            if getattr(a, "sample_H_kwargs", None) is not None:
                b.sample_H_kwargs = dict(a.sample_H_kwargs)
        there = go(q.to(NAME), send(xs), send(grids))
    here = go(net, xs, grids)
    with Device():
        for a, b in zip(tensors(there), tensors(here)):
            ctx.check("on-the-device", is_remote(a.detach()))
            v = fetch(a)
            if v.is_floating_point():  # rounding may be amplified by Adam and by ill conditioned samplings
                ctx.close("training", v, b.detach(), max(b.abs().max().item(), 1e-3) * 1e-5)
            else:
                ctx.same("training", v, b.detach())


FAMILIES = [
    Family("factories", factories, 160, 2500),
    Family("cached", cached, 20, 300),
    Family("functions", functions, 250, 4000),
    Family("layers", layers, 120, 2500),
    Family("built-there", built_there, 50, 800),
    Family("modules", modules, 60, 800),
    Family("training", training, 20, 300),
]
