"""C03 parameterisations of SO(3) describe the same rotation"""
import math

import torch

from gconv.geometry import so2, so3
from gv import refs
from gv.core import Family
from gv.groups import KINDS3, rot3
from gv.refs import D, pi

PROPERTY = "C03"


def shape(ctx):
    s = ctx.choice("batch", [(1,), (5,), (2, 3), (1, 1), (4, 1, 2), ()])
    if ctx.rng.random() < 0.04:
        s = ctx.choice("batch", [(ctx.rng.randint(50, 1500),), (3, ctx.rng.randint(20, 200)), (2, 3, 2, 2)])
    return s, int(math.prod(s))


def setup(ctx):
    dt = torch.float32 if ctx.flip("f32", 0.4) else D
    s, n = shape(ctx)
    kind = ctx.choice("kind", KINDS3 + ("mixed",))
    if n > 30 and kind == "mixed":
        kind = "haar"
    R = ctx.layout(rot3(ctx, n, kind).view(*s, 3, 3).to(dt))
    return dt, s, R, (2e-5 if dt == torch.float32 else 1e-11), kind


def quats(ctx):
    dt, s, R, t, kind = setup(ctx)
    q = ctx.call("matrix_to_quat", so3.matrix_to_quat, R)
    ctx.check("quat-shape", q.shape == (*s, 4) and q.dtype == dt, str(q.shape))
    ctx.close("unit-quaternion", q.norm(dim=-1), torch.ones(s), t)
    ctx.close("matrix->quat", refs.quat_mat(q), R, t)
    ctx.close("matrix->quat->matrix", ctx.call("quat_to_matrix", so3.quat_to_matrix, q), R, t)
    M = ctx.call("quat_to_matrix", so3.quat_to_matrix, -q)
    ctx.close("q-and-minus-q", M, R, t)
    ctx.close("rotation-matrix", M.double() @ M.double().mT, torch.eye(3, dtype=D).expand(*s, 3, 3), t * 2)
    ctx.close("rotation-matrix", torch.linalg.det(M.double()), torch.ones(s), t * 2)
    # products agree across the parameterisations
    R2 = rot3(ctx, 1, "mixed")[0].to(dt)
    q2 = so3.matrix_to_quat(R2)
    ctx.close("product-agrees", so3.quat_to_matrix(so3.left_apply_quat(q, q2)), so3.left_apply_matrix(R, R2), t * 3)
    ctx.close("inverse-agrees", so3.quat_to_matrix(so3.quat_inverse(q)), so3.matrix_inverse(R), t * 2)


def eulers(ctx):
    dt, s, R, t, kind = setup(ctx)
    # documented: entries below 1e-6 are zeroed, gimbal lock decided at 1e-5 rad, acos near +-1
    t = 5e-5
    g = ctx.call("matrix_to_euler", so3.matrix_to_euler, R, no_warn=True)
    ctx.check("euler-shape", g.shape == (*s, 3) and g.dtype == dt, str(g.shape))
    ctx.check("euler-domain", (g.abs() <= pi + 1e-6).all(), "angles outside [-pi, pi]", g=g)
    ctx.close("matrix->euler", refs.euler_zyz(g), R, t)
    ctx.close("matrix->euler->matrix", ctx.call("euler_to_matrix", so3.euler_to_matrix, g), R, t)
    ctx.close("matrix->euler->quat", refs.quat_mat(ctx.call("euler_to_quat", so3.euler_to_quat, g)), R, t)
    g2 = ctx.call("quat_to_euler", so3.quat_to_euler, so3.matrix_to_quat(R))
    ctx.close("quat->euler", refs.euler_zyz(g2), R, t)
    locked = R[..., 2, 2].double().abs() > 1 - 1e-12
    if locked.any():
        ctx.event("gimbal-lock-seen", int(locked.sum()))
        if s and kind in ("gimbal0", "gimbalpi", "identity"):
            ctx.check("gimbal-lock-convention", (g[locked][:, 2] == 0).all(), "third angle is not zero at gimbal lock", g=g)


def euler_forward(ctx):
    """euler -> matrix is the extrinsic ZYZ composition, for any angles"""
    dt = torch.float32 if ctx.flip("f32", 0.4) else D
    s, n = shape(ctx)
    kind = ctx.choice("angles", ["domain", "wild", "quarters", "small"])
    g = (torch.rand(*s, 3, dtype=D) * 2 - 1) * pi
    if kind == "wild":
        g = g * 7
    if kind == "quarters":
        g = torch.randint(-4, 5, (*s, 3)).to(D) * pi / 2
    if kind == "small":
        g = g * 10 ** ctx.rng.uniform(-5, -1)
    g = ctx.layout(g.to(dt))
    t = 3e-5 if dt == torch.float32 else 2e-6
    M = ctx.call("euler_to_matrix", so3.euler_to_matrix, g)
    ctx.check("matrix-shape", M.shape == (*s, 3, 3) and M.dtype == dt, str(M.shape))
    ctx.close("zyz-composition", M, refs.euler_zyz(g), t)
    ctx.close("zyz-from-axis-matrices", M, so3.matrix_z(g[..., 2]) @ so3.matrix_y(g[..., 1]) @ so3.matrix_z(g[..., 0]), t)
    ctx.close("euler->quat", refs.quat_mat(ctx.call("euler_to_quat", so3.euler_to_quat, g)), refs.euler_zyz(g), t * 2)
    if kind == "quarters":
        ctx.check("exact-zeros", ((M.abs() < 1e-6) == (M == 0)).all(), "entries of rounding size are not zeroed", M=M)


def axes(ctx):
    dt = torch.float32 if ctx.flip("f32", 0.4) else D
    s, _ = shape(ctx)
    th = (torch.randn(s, dtype=D) * ctx.choice("scale", [1e-4, 1.0, 20.0])).to(dt)
    th = ctx.layout(th)
    t = 1e-5 if dt == torch.float32 else 1e-12
    for i, f in enumerate((so3.matrix_x, so3.matrix_y, so3.matrix_z)):
        M = ctx.call("matrix_" + "xyz"[i], f, th)
        ctx.close("axis-rotation", M, refs.axis_rot(i, th.double()), t)


def logs(ctx):
    """so3_log and quaternion_log are the logarithms"""
    dt = torch.float32 if ctx.flip("f32", 0.4) else D
    s, n = shape(ctx)
    kind = ctx.choice("kind", KINDS3 + ("mixed",))
    if n > 30 and kind == "mixed":
        kind = "haar"
    R = ctx.layout(rot3(ctx, n, kind).view(*s, 3, 3).to(dt))
    t = 3e-5 if dt == torch.float32 else 3e-7
    v = ctx.call("so3_log", so3.so3_log, R)
    ctx.check("log-shape", v.shape == (*s, 3) and v.dtype == dt, str(v.shape))
    ctx.close("exp-of-log", refs.rodrigues(v), R, t)
    ctx.check("log-is-principal", (v.norm(dim=-1) <= pi + 1e-5).all(), "longer than pi", v=v)
    ctx.close("log-angle", v.norm(dim=-1), refs.rot_angle(R), t * 3 if dt == D else 2e-3)
    # quaternions: q = |q| (cos t, sin t u), log q = (log |q|, t u)
    m = max(n, 1)
    r = 10 ** (torch.rand(m, 1, dtype=D) * 2 - 1)
    u = torch.randn(m, 3, dtype=D)
    u = u / u.norm(dim=-1, keepdim=True)
    th = torch.rand(m, 1, dtype=D) * 3.0 + 0.02
    if ctx.flip("identity-quat", 0.15):
        th = torch.zeros(m, 1, dtype=D)
    q = (torch.cat((torch.cos(th), torch.sin(th) * u), -1) * r).to(dt)
    lq = ctx.call("quaternion_log", so3.quaternion_log, q)
    ctx.close("quaternion-log", lq, torch.cat((torch.log(r), th * u), -1), 2e-4 if dt == torch.float32 else 1e-10)


def gimbal_batches(ctx):
    """one batch mixing locked and regular rotations converts each row as if alone"""
    dt = torch.float32 if ctx.flip("f32", 0.4) else D
    n = ctx.size(2, 8, 150, 0.05)
    ctx.describe(n=n)
    R = ctx.layout(rot3(ctx, n, "mixed").to(dt))
    t = 1e-6 if dt == torch.float32 else 1e-12
    g = ctx.call("matrix_to_euler", so3.matrix_to_euler, R, no_warn=True)
    q = ctx.call("matrix_to_quat", so3.matrix_to_quat, R)
    l = ctx.call("so3_log", so3.so3_log, R)
    for i in ctx.rng.sample(range(n), min(n, 12)):
        ctx.close("rows-independent", so3.matrix_to_euler(R[i : i + 1], no_warn=True)[0], g[i], t * 4)
        ctx.close("rows-independent", so3.matrix_to_quat(R[i : i + 1])[0], q[i], t)
        ctx.close("rows-independent", so3.so3_log(R[i : i + 1])[0], l[i], t * 4)
    p = torch.randperm(n)
    ctx.close("rows-permute", so3.matrix_to_euler(R[p], no_warn=True), g[p], t * 4)
    ctx.close("rows-permute", so3.matrix_to_quat(R[p]), q[p], t)


FAMILIES = [
    Family("quats", quats, 600, 16000),
    Family("eulers", eulers, 600, 16000),
    Family("euler_forward", euler_forward, 300, 8000),
    Family("axes", axes, 80, 1500),
    Family("logs", logs, 500, 12000),
    Family("gimbal_batches", gimbal_batches, 200, 5000),
]
