"""Adapters giving the groups of the library one interface for the harness, with an
independent matrix model of each group law."""
from __future__ import annotations

import math

import torch

from gconv.geometry import o2, o3, so2, so3

from . import refs
from .refs import D, pi

KINDS3 = ("haar", "near_id", "pi", "near_pi", "octa", "axis", "gimbal0", "gimbalpi", "identity")
KINDS2 = ("haar", "near_id", "pi", "quarter", "identity", "wrap")


def rot3(ctx, n, kind=None):
    """n rotation matrices, float64, exactly orthogonal to rounding"""
    kind = kind or ctx.rng.choice(KINDS3)
    if kind == "mixed":
        return torch.stack([rot3(ctx, 1, ctx.rng.choice(KINDS3))[0] for _ in range(n)])
    if kind == "octa":
        M = refs.octahedral_matrices()
        return M[torch.randint(len(M), (n,))]
    if kind == "identity":
        return torch.eye(3, dtype=D).repeat(n, 1, 1)
    if kind == "axis":
        return torch.stack([refs.axis_rot(ctx.rng.randrange(3), ctx.rng.uniform(-pi, pi)) for _ in range(n)])
    if kind in ("gimbal0", "gimbalpi"):
        g = (torch.rand(n, 3, dtype=D) * 2 - 1) * pi
        g[:, 1] = 0.0 if kind == "gimbal0" else pi
        return refs.euler_zyz(g)
    u = torch.randn(n, 3, dtype=D)
    u = u / u.norm(dim=-1, keepdim=True)
    if kind == "haar":
        q = torch.randn(n, 4, dtype=D)
        return refs.quat_mat(q / q.norm(dim=-1, keepdim=True))
    if kind == "near_id":
        return refs.rodrigues(u * 10 ** (-6 * torch.rand(n, 1, dtype=D)))
    if kind == "pi":
        return refs.rodrigues(u * pi)
    if kind == "near_pi":
        return refs.rodrigues(u * (pi - 10 ** (-6 * torch.rand(n, 1, dtype=D))))
    raise KeyError(kind)


def rot2angles(ctx, n, kind=None):
    kind = kind or ctx.rng.choice(KINDS2)
    if kind == "mixed":
        return torch.cat([rot2angles(ctx, 1, ctx.rng.choice(KINDS2)) for _ in range(n)])
    if kind == "haar":
        return torch.rand(n, 1, dtype=D) * 2 * pi
    if kind == "near_id":
        return (torch.rand(n, 1, dtype=D) - 0.5) * 10 ** (-5 * torch.rand(n, 1, dtype=D))
    if kind == "pi":
        return torch.full((n, 1), pi, dtype=D)
    if kind == "quarter":
        return torch.randint(0, 4, (n, 1)).to(D) * (pi / 2)
    if kind == "identity":
        return torch.zeros(n, 1, dtype=D)
    if kind == "wrap":
        return (torch.rand(n, 1, dtype=D) - 0.5) * 40
    raise KeyError(kind)


def quats(ctx, n, kind=None):
    q = refs.mat_quat(rot3(ctx, n, kind))
    return q * torch.where(torch.rand(n, 1) > 0.5, 1.0, -1.0).to(D)


class SO2:
    name, n, shape = "so2", 2, (1,)
    mul, pair, inv = staticmethod(so2.left_apply_angle), staticmethod(so2.left_apply_to_angle), staticmethod(so2.inverse_angle)
    act = staticmethod(so2.left_apply_angle_to_R2)
    det = None
    KINDS = KINDS2

    @staticmethod
    def rand(ctx, n, kind=None):
        return rot2angles(ctx, n, kind)

    @staticmethod
    def rep(h):  # faithful matrix representation
        return refs.rot2(h.to(D)[..., 0])

    acts = rep

    @staticmethod
    def identity():
        return torch.zeros(1, 1, dtype=D)


class O2:
    name, n, shape = "o2", 2, (2,)
    mul, pair, inv = staticmethod(o2.left_apply_angle), staticmethod(o2.left_apply_to_angle), staticmethod(o2.inverse)
    act = staticmethod(o2.left_apply_to_R2)
    det = staticmethod(o2.det)
    KINDS = KINDS2

    @staticmethod
    def rand(ctx, n, kind=None):
        c = torch.where(torch.rand(n, 1) > 0.5, 1.0, -1.0).to(D)
        return torch.cat((c, rot2angles(ctx, n, kind)), -1)

    @staticmethod
    def rep(h):  # Z2 x SO(2)
        h = h.to(D)
        M = torch.zeros(*h.shape[:-1], 3, 3, dtype=D)
        M[..., 0, 0] = h[..., 0]
        M[..., 1:, 1:] = refs.rot2(h[..., 1])
        return M

    @staticmethod
    def acts(h):
        h = h.to(D)
        return h[..., 0, None, None] * refs.rot2(h[..., 1])

    @staticmethod
    def identity():
        return torch.tensor([[1.0, 0.0]], dtype=D)


class SO3:
    name, n, shape = "so3", 3, (3, 3)
    mul, pair, inv = staticmethod(so3.left_apply_matrix), staticmethod(so3.left_apply_to_matrix), staticmethod(so3.matrix_inverse)
    act = staticmethod(so3.left_apply_to_R3)
    det = None
    KINDS = KINDS3

    @staticmethod
    def rand(ctx, n, kind=None):
        return rot3(ctx, n, kind)

    @staticmethod
    def rep(h):
        return h.to(D)

    acts = rep

    @staticmethod
    def identity():
        return torch.eye(3, dtype=D)[None]


class O3:
    name, n, shape = "o3", 3, (10,)
    mul, pair, inv = staticmethod(o3.left_apply_O3), staticmethod(o3.left_apply_to_O3), staticmethod(o3.inverse)
    act = staticmethod(o3.left_apply_to_R3)
    det = staticmethod(o3.det)
    KINDS = KINDS3

    @staticmethod
    def rand(ctx, n, kind=None):
        c = torch.where(torch.rand(n, 1) > 0.5, 1.0, -1.0).to(D)
        return torch.cat((c, rot3(ctx, n, kind).flatten(1)), -1)

    @staticmethod
    def rep(h):
        h = h.to(D)
        M = torch.zeros(*h.shape[:-1], 4, 4, dtype=D)
        M[..., 0, 0] = h[..., 0]
        M[..., 1:, 1:] = h[..., 1:].unflatten(-1, (3, 3))
        return M

    @staticmethod
    def acts(h):
        h = h.to(D)
        return h[..., 0, None, None] * h[..., 1:].unflatten(-1, (3, 3))

    @staticmethod
    def identity():
        return torch.cat((torch.ones(1, dtype=D), torch.eye(3, dtype=D).flatten()))[None]


class SO3Q:
    """so3 in quaternions (up to sign)"""
    name, n, shape = "so3quat", 3, (4,)
    mul, pair, inv = staticmethod(so3.left_apply_quat), None, staticmethod(so3.quat_inverse)
    act = None
    det = None
    KINDS = KINDS3

    @staticmethod
    def rand(ctx, n, kind=None):
        return quats(ctx, n, kind)

    @staticmethod
    def rep(h):
        return refs.quat_mat(h)

    @staticmethod
    def identity():
        return torch.tensor([[1.0, 0, 0, 0]], dtype=D)


GROUPS = {g.name: g for g in (SO2, O2, SO3, O3, SO3Q)}


def broadcastable(ctx, k=2):
    """k batch shapes of any rank that broadcast against each other"""
    r = ctx.rng
    full = [r.randint(1, 3) for _ in range(r.randint(0, 4))]
    out = [tuple(1 if r.random() < 0.3 else d for d in full[r.randint(0, len(full)):]) for _ in range(k)]
    ctx.describe(shapes=out)
    return out
