"""C08 the grid cache is isolated from its callers, over histories of use"""
from concurrent.futures import ThreadPoolExecutor

import torch

from gconv.geometry import o3, so3
from gconv.geometry.groups import _grid_cache
from gconv.gnn.kernels import GKernelE3, GLiftingKernelSE3
from gv import refs
from gv.core import Family
from gv.groups import quats
from gv.refs import D

PROPERTY = "C08"
TAIL = {"quat": (4,), "matrix": (3, 3), "euler": (3,)}


def same_grid_rows(ctx, g, n, param):
    ctx.check("cached-shape", g.shape == (n, *TAIL[param]), f"{tuple(g.shape)} for {n} {param}")


def history(ctx):
    """random histories of reads, edits of what was read, generation with and without
    caching, explicit saves; a shadow dictionary predicts every cached read"""
    shadow = {}
    held = []
    originals = {}  # built-in entries the history replaces; put back at the end
    steps = ctx.randint("steps", 8, 30)
    big = [ctx.rng.randint(25, 2000) * 10 + 7 for _ in range(2)]  # sizes nobody cached (saved explicitly)
    gen = [ctx.rng.randint(26, 34) for _ in range(2)]
    ops = []

    modes = ctx.flip("modes", 0.4)

    def ambience(step):
        """now and then where no gradients are recorded, or in another thread"""
        how = ctx.rng.choice(["here", "here", "no-grad", "inference", "thread"]) if modes else "here"
        if how == "no-grad":
            with torch.no_grad():
                return step()
        if how == "inference":
            with torch.inference_mode():
                return step()
        if how == "thread":
            with ThreadPoolExecutor(1) as pool:
                return pool.submit(step).result()
        return step()

    def read(n, param, **kw):
        return ambience(lambda: read_here(n, param, **kw))

    def read_here(n, param, **kw):
        g = ctx.call("uniform_grid", so3.uniform_grid, n, param, show_pbar=False, steps=1, **kw)
        ctx.check("grids-are-values", not g.requires_grad and g.grad_fn is None, "a grid is part of somebody's graph")
        return g

    for _ in range(steps):
        op = ctx.rng.choice(["read", "read", "read", "edit", "generate", "generate-cached", "save", "overwrite", "resave", "overwrite-small", "o3", "kernel"])
        param = ctx.rng.choice(["quat", "matrix", "euler"])
        ops.append(op)
        if op == "read":
            n = ctx.rng.randint(1, 24)
            param = ctx.rng.choice(["quat", "matrix"])
            g = read(n, ctx.rng.choice([param, param.upper()]))
            same_grid_rows(ctx, g, n, param)
            if (n, param) in shadow:
                ctx.same("read-your-cache", g, shadow[n, param])
            shadow[n, param] = g.clone()
            held.append(g)
        elif op == "edit" and held:
            g = held.pop(ctx.rng.randrange(len(held)))
            ctx.rng.choice([lambda: g.zero_(), lambda: g.mul_(-3.0), lambda: g.add_(1.5), lambda: g[0].fill_(9.0),
                            lambda: g.requires_grad_(True)])()
        elif op in ("generate", "generate-cached"):
            n = ctx.rng.choice(gen)
            key = (n, param)
            keep = op == "generate-cached"
            g = read(n, param, cache_grid=keep)
            same_grid_rows(ctx, g, n, param)
            if key in shadow:
                ctx.same("read-your-cache", g, shadow[key])
            else:
                M = {"quat": refs.quat_mat, "matrix": lambda x: x.double(), "euler": refs.euler_zyz}[param](g)
                ctx.close("valid-grid", M @ M.mT, torch.eye(3, dtype=D).expand(n, 3, 3), 1e-4)
                if keep:
                    shadow[key] = g.clone()
            held.append(g)
        elif op in ("save", "overwrite", "resave", "overwrite-small"):
            n = ctx.rng.choice(big) if op in ("save", "overwrite") else ctx.rng.randint(1, 24)
            if (n, param) in shadow or n > 24:
                n = n if n <= 24 else ctx.rng.choice([25, 11]) + 40  # keep the tensors small: 65 or 51 rows
            if n <= 24 and param == "euler":
                param = "quat"
            q = quats(ctx, n, "haar").float()
            g = {"quat": lambda: q, "matrix": lambda: so3.quat_to_matrix(q), "euler": lambda: so3.quat_to_euler(q)}[param]()
            # a grid of another precision, memory layout, or one that is part of a graph is a grid all the same
            form = ctx.rng.choice(["plain", "plain", "double", "strided", "slice", "leaf", "graph"])
            if form == "double":
                g = g.double()
            if form == "strided":
                g = g.transpose(0, -1).contiguous().transpose(0, -1)
            if form == "slice":
                g = torch.cat((g, g * 0))[:n]
            orig = g.clone()
            if form in ("leaf", "graph"):
                g = (g * 1.0).requires_grad_()
                if form == "graph":
                    g = g * 1.0
            over = op.startswith("overwrite")
            before = shadow.get((n, param))
            if op == "overwrite-small":
                originals.setdefault((n, param), _grid_cache.load_grid(n, "so3", param))
            if before is None:
                try:
                    before = _grid_cache.load_grid(n, "so3", param)
                except KeyError:
                    before = None
            names = ctx.rng.choice(["so3", "SO3"]), ctx.rng.choice([param, param.upper()])
            ambience(lambda: ctx.call("save_grid", _grid_cache.save_grid, g, *names, overwrite=over))
            with torch.no_grad():
                g.zero_()  # the saver keeps using its tensor
            want = orig if (before is None or over) else before
            ctx.same("saved-is-what-is-read", ctx.call("load_grid", _grid_cache.load_grid, n, "SO3", param), want)
            ctx.same("saved-is-what-is-read", read(n, param), want)
            shadow[n, param] = want.clone()
        elif op == "o3":
            n, m = ctx.rng.randint(1, 24), ctx.rng.randint(1, 24)
            g = ctx.call("o3.uniform_grid", o3.uniform_grid, (n, m))
            for part, k in ((g[:n], n), (g[n:], m)):
                R = part[:, 1:].reshape(-1, 3, 3)
                if (k, "matrix") in shadow:
                    ctx.same("read-your-cache", R, shadow[k, "matrix"].to(R.dtype))  # (cat promotes)
            g.zero_()
        elif op == "kernel":
            n = ctx.rng.randint(2, 8)
            k = GLiftingKernelSE3(1, 1, 3, n)
            if (n, "matrix") in shadow:
                ctx.same("read-your-cache", k.grid_H, shadow[n, "matrix"])
            with torch.no_grad():
                k.grid_H.mul_(5.0)  # e.g. a model that edits its own buffer
            e = GKernelE3(1, 1, 3, (n, n))
            if (n, "matrix") in shadow:
                ctx.same("read-your-cache", e.grid_H[:n, 1:].reshape(-1, 3, 3), shadow[n, "matrix"].to(e.grid_H.dtype))
            with torch.no_grad():
                e.grid_H.add_(1.0)
        ctx.event("history-steps")
    # at the end every entry the history knows still reads back
    for (n, param), g in shadow.items():
        ctx.same("read-your-cache", read(n, param), g)
    for (n, param), g in originals.items():
        _grid_cache.save_grid(g, "so3", param, overwrite=True)
        ctx.same("saved-is-what-is-read", read(n, param), g)
    ctx.describe(ops=",".join(ops))


def parameterisations(ctx):
    """caching one parameterisation is visible in that parameterisation only, and means
    the same rotations"""
    n = ctx.randint("n", 26, 60)
    for param in ctx.rng.sample(["quat", "matrix", "euler"], 3):
        g = ctx.call("uniform_grid", so3.uniform_grid, n, param, steps=2, show_pbar=False, cache_grid=True)
        same_grid_rows(ctx, g, n, param)
        h = so3.uniform_grid(n, param, steps=2, show_pbar=False)
        ctx.check("cached-shape", h.shape == g.shape, f"{h.shape} after caching {g.shape}")
        ctx.same("read-your-cache", h, g)
        ctx.check("no-aliasing", h.data_ptr() != g.data_ptr() and h.data_ptr() != so3.uniform_grid(n, param, show_pbar=False).data_ptr())
    m = n + 1000
    a = so3.uniform_grid(m, "quat", steps=0, show_pbar=False)
    b = so3.uniform_grid(m, "quat", steps=0, show_pbar=False)
    ctx.check("uncached-not-kept", not torch.equal(a, b), "an uncached grid was kept")
    ctx.raises("unknown-size-is-keyerror", KeyError, _grid_cache.load_grid, m, "so3", "quat")
    ctx.raises("unknown-type-is-keyerror", KeyError, _grid_cache.load_grid, 4, "so7", "quat")
    # a cache for a new kind of grid can be opened
    t = torch.randn(5, 2)
    kind = f"kind{ctx.index}"
    ctx.call("save_grid", _grid_cache.save_grid, t, kind, "angles")
    ctx.same("saved-is-what-is-read", _grid_cache.load_grid(5, kind, "angles"), t)


FAMILIES = [
    Family("history", history, 150, 3000),
    Family("parameterisations", parameterisations, 40, 700),
]
