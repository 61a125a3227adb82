"""C19 numerical hygiene: sanitizers over every tensor operation of a forward and backward pass"""
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from gconv import gnn
from gconv.geometry import o2, o3, so2, so3
from gconv.geometry.groups import s2
from gv import layers as L, refs
from gv.core import Family
from gv.groups import GROUPS, quats, rot2angles, rot3
from gv.refs import D, pi

PROPERTY = "C19"


class Sanitizer(TorchDispatchMode):
    """Watches every aten operation of the guarded region.

    * non-finite: an operation with finite inputs that returns NaN or infinity. Recorded as the
      origin of a non-finite final result, which is what is judged (uninitialised memory is
      NaN-filled by the harness, so reading it before writing surfaces there as well)
    * foreign-write: an in-place operation on memory that existed before the region
      (arguments, parameters, buffers, cached grids)
    """

    ALLOC = ("empty", "new_empty", "empty_like", "empty_strided", "new_empty_strided", "resize_")

    def __init__(self, ctx, protected):
        super().__init__()
        self.ctx = ctx
        self.protected = {t.untyped_storage().data_ptr(): n for n, t in protected if t.numel()}
        self.bad = []
        self.ops = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func.overloadpacket.__name__
        fin = True
        ins = [a for a in torch.utils._pytree.tree_leaves((args, kwargs)) if isinstance(a, torch.Tensor)]
        if func._schema.is_mutable and name not in ("detach_", "requires_grad_", "set_", "resize_"):
            for i, a in enumerate(func._schema.arguments):
                if a.alias_info is not None and a.alias_info.is_write:
                    t = args[i] if i < len(args) else kwargs.get(a.name)
                    if isinstance(t, torch.Tensor) and t.numel():
                        p = t.untyped_storage().data_ptr()
                        if p in self.protected:
                            self.bad.append(("foreign-write", f"{func} writes to {self.protected[p]}"))
        for t in ins:
            if t.is_floating_point() and t.device.type == "cpu" and not torch.isfinite(t.detach()).all():
                fin = False
        out = func(*args, **kwargs)
        self.ops += 1
        if fin and name not in self.ALLOC:
            for t in torch.utils._pytree.tree_leaves(out):
                if isinstance(t, torch.Tensor) and t.is_floating_point() and not torch.isfinite(t.detach()).all():
                    self.bad.append(("non-finite", f"{func} returned non-finite values for finite inputs"))
        return out


def guarded(ctx, what, protected, fn):
    before = [(n, t, t.detach().clone()) for n, t in protected]
    with Sanitizer(ctx, protected) as z:
        out = fn()
    ctx.event("sanitized-operations", z.ops)
    ctx.event("sanitized:" + what)
    for kind, msg in z.bad:
        if kind == "foreign-write":
            ctx.fail("sanitizer:foreign-write", f"{what}: {msg}")
    for n, t, c in before:
        ctx.check("sanitizer:unmodified", torch.equal(t.detach(), c), f"{what} modified {n}")
    origin = [m for k, m in z.bad if k == "non-finite"]
    for t in torch.utils._pytree.tree_leaves(out):
        if isinstance(t, torch.Tensor):
            ctx.check("sanitizer:finite", torch.isfinite(t.detach()).all(), f"{what} is not finite; origin: {origin[:2]}")
    return out


def hostile_H(ctx, s, n):
    """group elements at the singular points of every parameterisation"""
    h = L.rand_H(ctx, s.fam, n, "mixed")
    how = ctx.rng.choice(["mixed", "identity", "duplicates", "reference", "neighbours"])
    if how == "identity":
        h = GROUPS[L.FAM[s.fam]].identity().repeat(n, 1) if s.n == 2 or s.E else torch.eye(3, dtype=D).repeat(n, 1, 1)
    if how == "duplicates":
        h = h[:1].expand(n, *h.shape[1:]).clone()
    return h.to(s.dtype), how


def layer(ctx):
    """forward and backward at hostile group elements and magnitudes: finite, in bounds, no foreign writes"""
    s = L.spec(ctx, dtype=ctx.rng.choice([D, torch.float32]), permute=ctx.rng.random() < 0.3)
    m = L.build(s)
    L.init(ctx, m)
    hi, a = hostile_H(ctx, s, ctx.rng.randint(1, 4))
    ho, b = hostile_H(ctx, s, ctx.rng.randint(1, 4))
    if "reference" in (a, b):
        ho = m.kernel.grid_H.detach().clone()
    x = L.features(ctx, s, 1, L.spatial(ctx, s, lo=2), len(hi))
    x = x * ctx.choice("magnitude", [1.0, 0.0, 1e-20, 1e12 if s.dtype == D else 1e6])
    ctx.describe(**s.brief(), hostile_in=a, hostile_out=b)
    x.requires_grad_()
    if ctx.flip("differentiable-elements", 0.3):
        ho = ho.detach().clone().requires_grad_()
        hi = hi.detach().clone().requires_grad_(ctx.rng.random() < 0.5)
    m.train(ctx.rng.random() < 0.7)
    prot = [("input", x), ("in_H", hi), ("out_H", ho)] + list(m.named_parameters()) + list(m.named_buffers())

    def go():
        y, H = m(x, ho) if s.kind == "lift" else m(x, hi, ho)
        return y, H

    y, H = guarded(ctx, f"forward:{s.kind}{s.fam}", prot, go)
    ctx.check("finite-response", torch.isfinite(y).all())
    loss = (y * torch.randn_like(y)).sum()
    ps = [x] + list(m.parameters())
    gs = guarded(ctx, f"backward:{s.kind}{s.fam}", prot, lambda: torch.autograd.grad(loss, ps, allow_unused=True))
    for p, g in zip(ps, gs):
        ctx.check("finite-gradient", g is not None and torch.isfinite(g).all(), "missing or non-finite gradient")
    ctx.check("finite-grid", torch.isfinite(H).all())
    for k, v in m.named_buffers():
        ctx.check("buffers-do-not-train", not v.requires_grad and v.grad is None, k)


def build(ctx):
    """construction leaves no uninitialised parameter or buffer (allocations are NaN-filled)"""
    s = L.spec(ctx)
    m = guarded(ctx, f"build:{s.kind}{s.fam}", [], lambda: L.build(s))
    for k, v in m.state_dict().items():
        ctx.check("initialised", torch.isfinite(v).all(), f"{k} is not initialised")
    for k, v in m.named_parameters():
        ctx.check("parameters-are-random", v.numel() < 3 or v.std() > 0, k)
        ctx.check("parameters-train", v.requires_grad and v.is_leaf, k)
    for k, v in m.named_buffers():
        ctx.check("buffers-do-not-train", not v.requires_grad, k)


FUNCS = {
    "so3.matrix_to_quat": lambda ctx, n: (so3.matrix_to_quat, [rot3(ctx, n)]),
    "so3.matrix_to_euler": lambda ctx, n: (so3.matrix_to_euler, [rot3(ctx, n)]),
    "so3.quat_to_matrix": lambda ctx, n: (so3.quat_to_matrix, [quats(ctx, n)]),
    "so3.quat_to_euler": lambda ctx, n: (so3.quat_to_euler, [quats(ctx, n)]),
    "so3.euler_to_matrix": lambda ctx, n: (so3.euler_to_matrix, [(torch.rand(n, 3, dtype=D) - 0.5) * 12]),
    "so3.euler_to_quat": lambda ctx, n: (so3.euler_to_quat, [(torch.rand(n, 3, dtype=D) - 0.5) * 12]),
    "so3.so3_log": lambda ctx, n: (so3.so3_log, [rot3(ctx, n)]),
    "so3.geodesic_distance": lambda ctx, n: (so3.geodesic_distance, [quats(ctx, n), quats(ctx, n)]),
    "so3.nearest_neighbour_distance": lambda ctx, n: (so3.nearest_neighbour_distance, [rot3(ctx, n)]),
    "so2.geodesic_distance": lambda ctx, n: (so2.geodesic_distance, [rot2angles(ctx, n), rot2angles(ctx, n)]),
    "so2.nearest_neighbour_distance": lambda ctx, n: (so2.nearest_neighbour_distance, [rot2angles(ctx, n)]),
    "s2.euclid_to_spherical": lambda ctx, n: (s2.euclid_to_spherical, [rot3(ctx, n)[..., 2]]),
    "s2.geodesic_distance_s2": lambda ctx, n: (s2.geodesic_distance_s2, [rot3(ctx, n)[..., 2], rot3(ctx, n)[..., 2]]),
}


def angles(n):
    return (torch.rand(n, dtype=D) - 0.5) * 14


def sphere(ctx, n):
    """points of the sphere, poles and axes included"""
    return rot3(ctx, n, "mixed")[..., ctx_axis(ctx)]


def ctx_axis(ctx):
    return ctx.rng.randrange(3)


def el(fam):
    return lambda ctx, n: L.rand_H(ctx, fam, n, "mixed")


def lattice(n):
    return torch.rand(*(3,) * n, n, dtype=D) * 2 - 1


FUNCS.update({
    "so3.matrix_x": lambda ctx, n: (so3.matrix_x, [angles(n)]),
    "so3.matrix_y": lambda ctx, n: (so3.matrix_y, [angles(n)]),
    "so3.matrix_z": lambda ctx, n: (so3.matrix_z, [angles(n)]),
    "so3.quaternion_log": lambda ctx, n: (so3.quaternion_log, [quats(ctx, n, "mixed")]),
    "so3.quaternion_log:real": lambda ctx, n: (so3.quaternion_log, [torch.eye(4, dtype=D)[torch.randint(0, 4, (n,))] * ctx.rng.choice([-1.0, 1.0])]),
    "so3.quat_inverse": lambda ctx, n: (so3.quat_inverse, [quats(ctx, n, "mixed")]),
    "so3.matrix_inverse": lambda ctx, n: (so3.matrix_inverse, [rot3(ctx, n)]),
    "so3.left_apply_quat": lambda ctx, n: (so3.left_apply_quat, [quats(ctx, n), quats(ctx, n)]),
    "so3.left_apply_matrix": lambda ctx, n: (so3.left_apply_matrix, [rot3(ctx, n), rot3(ctx, n)]),
    "so3.left_apply_to_matrix": lambda ctx, n: (so3.left_apply_to_matrix, [rot3(ctx, n), rot3(ctx, 2)]),
    "so3.left_apply_to_R3": lambda ctx, n: (so3.left_apply_to_R3, [rot3(ctx, n), lattice(3)]),
    "so3.matrix_to_quat:mixed": lambda ctx, n: (so3.matrix_to_quat, [rot3(ctx, n, "mixed")]),
    "so3.matrix_to_euler:mixed": lambda ctx, n: (so3.matrix_to_euler, [rot3(ctx, n, "mixed")]),
    "so3.so3_log:mixed": lambda ctx, n: (so3.so3_log, [rot3(ctx, n, "mixed")]),
    "so2.angle_to_matrix": lambda ctx, n: (so2.angle_to_matrix, [angles(n)[:, None]]),
    "so2.angle_to_euclid": lambda ctx, n: (so2.angle_to_euclid, [angles(n)[:, None]]),
    "so2.inverse_angle": lambda ctx, n: (so2.inverse_angle, [rot2angles(ctx, n)]),
    "so2.inverse_matrix": lambda ctx, n: (so2.inverse_matrix, [refs.rot2(angles(n))]),
    "so2.left_apply_angle": lambda ctx, n: (so2.left_apply_angle, [rot2angles(ctx, n), rot2angles(ctx, n)]),
    "so2.left_apply_to_angle": lambda ctx, n: (so2.left_apply_to_angle, [rot2angles(ctx, n), rot2angles(ctx, 3)]),
    "so2.left_apply_angle_to_R2": lambda ctx, n: (so2.left_apply_angle_to_R2, [rot2angles(ctx, n), lattice(2)]),
    "so2.left_apply_matrix_to_R2": lambda ctx, n: (so2.left_apply_matrix_to_R2, [refs.rot2(angles(n)), lattice(2)]),
    "so2.geodesic_distance_euclid": lambda ctx, n: (so2.geodesic_distance_euclid, [circle(rot2angles(ctx, n)), circle(rot2angles(ctx, n))]),
    "s2.spherical_to_euclid": lambda ctx, n: (s2.spherical_to_euclid, [angles(2 * n).view(n, 2)]),
    "s2.spherical_to_euler": lambda ctx, n: (s2.spherical_to_euler, [angles(2 * n).view(n, 2)]),
    "s2.spherical_to_euler_neg_gamma": lambda ctx, n: (s2.spherical_to_euler_neg_gamma, [angles(2 * n).view(n, 2)]),
    "s2.euclid_to_spherical:poles": lambda ctx, n: (s2.euclid_to_spherical, [sphere(ctx, n)]),
})
for _n, _m, _f in (("o2", o2, "E2"), ("o3", o3, "E3")):
    FUNCS.update({
        f"{_n}.inverse": lambda ctx, n, m=_m, f=_f: (m.inverse, [el(f)(ctx, n)]),
        f"{_n}.det": lambda ctx, n, m=_m, f=_f: (m.det, [el(f)(ctx, n)]),
    })
FUNCS.update({
    "o2.left_apply_angle": lambda ctx, n: (o2.left_apply_angle, [el("E2")(ctx, n), el("E2")(ctx, n)]),
    "o2.left_apply_to_angle": lambda ctx, n: (o2.left_apply_to_angle, [el("E2")(ctx, n), el("E2")(ctx, 3)]),
    "o2.left_apply_to_R2": lambda ctx, n: (o2.left_apply_to_R2, [el("E2")(ctx, n), lattice(2)]),
    "o3.left_apply_O3": lambda ctx, n: (o3.left_apply_O3, [el("E3")(ctx, n), el("E3")(ctx, n)]),
    "o3.left_apply_to_O3": lambda ctx, n: (o3.left_apply_to_O3, [el("E3")(ctx, n), el("E3")(ctx, 3)]),
    "o3.left_apply_to_R3": lambda ctx, n: (o3.left_apply_to_R3, [el("E3")(ctx, n), lattice(3)]),
})


def circle(a):
    return torch.cat((torch.cos(a), torch.sin(a)), -1)


def makers(ctx):
    """functions that allocate and fill: every entry is written, every distance finite"""
    import gconv.gnn.functional as gF

    n = ctx.randint("n", 1, 9)
    mk = {
        "so2.uniform": lambda: so2.uniform_grid(n), "so2.random": lambda: so2.random_grid(n),
        "so3.random_quat": lambda: so3.random_quat(n), "so3.random_matrix": lambda: so3.random_matrix(n),
        "so3.random_euler": lambda: so3.random_euler(n), "so3.uniform": lambda: so3.uniform_grid(n, ctx.rng.choice(["matrix", "quat", "euler"])),
        "o2.uniform": lambda: o2.uniform_grid((n, ctx.rng.randint(0, 5))), "o2.random": lambda: o2.random_grid(n),
        "o3.uniform": lambda: o3.uniform_grid((n, ctx.rng.randint(0, 5))), "o3.random": lambda: o3.random_grid(n),
        "s2.random": lambda: s2.random_s2((n,)), "grid2": lambda: gF.create_grid_R2(n), "grid3": lambda: gF.create_grid_R3(n),
        "mask2": lambda: gF.create_spherical_mask_R2(n), "mask3": lambda: gF.create_spherical_mask_R3(n),
        "cyclic": lambda: so3.cyclic(n, ctx.rng.choice("xyz")), "klein": so3.klein_group, "tetra": so3.tetrahedral,
        "octa": so3.octahedral, "icosa": so3.icosahedral, "identity": so3.identity,
    }
    name = ctx.choice("maker", mk)
    out = guarded(ctx, "make:" + name, [], mk[name])
    ctx.check("initialised", torch.isfinite(out).all(), f"{name} leaves entries uninitialised", got=out)


def sweep(ctx):
    """thousands of exactly equal, exactly opposite and nearly so pairs: no distance leaves the real line"""
    which = ctx.choice("which", ["so2", "so2euclid", "so3", "s2", "so3_log", "quaternion_log", "nn-so2", "nn-so3", "euler", "quat"])
    dt = ctx.choice("dtype", [D, torch.float32])
    n = 4000
    off = ctx.choice("offset", [0.0, 1e-12, 1e-9, 1e-7, 1e-5])
    sgn = ctx.choice("opposite", [False, True])
    if which in ("so2", "so2euclid", "nn-so2"):
        a = (torch.rand(n, 1, dtype=D) * 14 - 7)
        b = a + off + (pi if sgn else 0.0) + 2 * pi * torch.randint(-1, 2, (n, 1))
        if which == "so2":
            f, args = so2.geodesic_distance, [a, b]
        elif which == "so2euclid":
            f, args = so2.geodesic_distance_euclid, [circle(a), circle(b)]
        else:
            f, args = so2.nearest_neighbour_distance, [torch.stack((a, b), 1).view(-1, 1)[:600]]
    elif which in ("so3", "nn-so3", "quaternion_log", "quat"):
        q = torch.randn(n, 4, dtype=D)
        q = q / q.norm(dim=-1, keepdim=True)
        p = q + off * torch.randn(n, 4, dtype=D)
        p = p / p.norm(dim=-1, keepdim=True) * (-1 if sgn else 1)
        if which == "so3":
            f, args = so3.geodesic_distance, [q, p]
        elif which == "nn-so3":
            f, args = so3.nearest_neighbour_distance, [torch.stack((q, p), 1).view(-1, 4)[:600]]
        else:
            e = torch.zeros(n, 4, dtype=D)
            e[:, 0] = -1.0 if sgn else 1.0
            e = e + off * torch.randn(n, 4, dtype=D)
            e = e / e.norm(dim=-1, keepdim=True)
            f, args = (so3.quaternion_log, [e]) if which == "quaternion_log" else (so3.quat_to_matrix, [e])
    elif which == "s2":
        x = torch.randn(n, 3, dtype=D)
        x = x / x.norm(dim=-1, keepdim=True)
        y = x + off * torch.randn(n, 3, dtype=D)
        f, args = s2.geodesic_distance_s2, [x, y / y.norm(dim=-1, keepdim=True) * (-1 if sgn else 1)]
    else:
        u = torch.randn(n, 3, dtype=D)
        R = refs.rodrigues(u / u.norm(dim=-1, keepdim=True) * ((pi if sgn else 0.0) + off))
        f, args = (so3.so3_log if which == "so3_log" else so3.matrix_to_euler), [R]
    args = [a.to(dt) for a in args]
    out = guarded(ctx, "sweep:" + which, [(f"argument {i}", a) for i, a in enumerate(args)], lambda: f(*args))
    bad = (~torch.isfinite(out)).reshape(len(out) if out.ndim else 1, -1).any(-1)
    ctx.check("finite-result", not bad.any(), f"{which}: {int(bad.sum())} of {bad.numel()} results are not finite")
    ctx.event("singular-pairs", len(args[0]))


def functions(ctx):
    """the group functions at singular elements"""
    name = ctx.choice("function", FUNCS)
    n = ctx.randint("n", 1, 8)
    f, args = FUNCS[name](ctx, n)
    dt = ctx.choice("dtype", [D, torch.float32])
    args = [a.to(dt) for a in args]
    if len(args) == 2 and args[0].shape == args[1].shape and ctx.flip("equal-arguments", 0.3):
        args[1] = args[0].clone()
    out = guarded(ctx, name, [(f"argument {i}", a) for i, a in enumerate(args)], lambda: f(*args))
    ctx.check("finite-result", torch.isfinite(out).all(), f"{name} is not finite", args=args)


def interpolation(ctx):
    """signals sampled at, near and far from the nodes, gradients with respect to the signal"""
    name = ctx.choice("space", ["so2", "so3", "o2", "o3"])
    n, m = ctx.randint("nodes", 1, 8), ctx.randint("queries", 1, 6)
    mode = ctx.choice("mode", ["rbf", "nearest"])
    fam = {v: k for k, v in L.FAM.items()}[name]
    if name in ("so2", "so3"):
        grid = L.ref_grid(ctx, fam, n)
        kw = dict(width=0.5)
    else:
        n1 = ctx.randint("rotations", 0, n)
        grid = L.ref_grid(ctx, fam, (n1, n - n1))
        kw = dict(rotation_width=0.5, reflection_width=0.5, signal_grid_size=(n1, n - n1))
    s = L.Spec("conv", fam)
    q, how = hostile_H(ctx, s, m)
    if how == "reference":
        q = grid[torch.randint(0, len(grid), (m,))]
    if how == "neighbours":
        q = L.mul(fam, L.rand_H(ctx, fam, 1, "near_id"), grid[torch.randint(0, len(grid), (m,))])
    dt = ctx.choice("dtype", [D, torch.float32])
    q, grid = q.to(dt), grid.to(dt)
    sig = torch.randn(len(grid), 3, dtype=dt, requires_grad=True)
    f = {"so2": so2, "so3": so3, "o2": o2, "o3": o3}[name].grid_sample
    out = guarded(ctx, f"{name}.grid_sample", [("queries", q), ("signal", sig), ("grid", grid)], lambda: f(q, sig, grid, mode=mode, **kw))
    ctx.check("finite-result", torch.isfinite(out).all())
    if out.requires_grad:
        g = torch.autograd.grad(out.sum(), sig)[0]
        ctx.check("finite-gradient", torch.isfinite(g).all())


FAMILIES = [
    Family("layer", layer, 320, 6000),
    Family("build", build, 160, 2500),
    Family("functions", functions, 500, 9000),
    Family("makers", makers, 200, 2500),
    Family("sweep", sweep, 200, 4000),
    Family("interpolation", interpolation, 200, 4000),
]
