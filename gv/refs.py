"""Independent float64 reference models. Nothing here calls the library."""
from __future__ import annotations

import math

import torch
import torch.nn.functional as F
from torch import Tensor

pi = math.pi
D = torch.float64


# ---------------------------------------------------------------- rotations
def rodrigues(v: Tensor) -> Tensor:
    """rotation vectors (..., 3) -> matrices, via the exponential series in closed form"""
    v = v.to(D)
    th = v.norm(dim=-1)[..., None, None]
    K = torch.zeros(*v.shape[:-1], 3, 3, dtype=D)
    K[..., 0, 1], K[..., 0, 2] = -v[..., 2], v[..., 1]
    K[..., 1, 0], K[..., 1, 2] = v[..., 2], -v[..., 0]
    K[..., 2, 0], K[..., 2, 1] = -v[..., 1], v[..., 0]
    a = torch.sinc(th / pi)
    b = 0.5 * torch.sinc(th / (2 * pi)) ** 2
    return torch.eye(3, dtype=D) + a * K + b * (K @ K)


def axis_rot(axis: int, theta) -> Tensor:
    theta = torch.as_tensor(theta, dtype=D)
    v = torch.zeros(*theta.shape, 3, dtype=D)
    v[..., axis] = theta
    return rodrigues(v)


def euler_zyz(g: Tensor) -> Tensor:
    """extrinsic ZYZ: first alpha about z, then beta about y, then gamma about z"""
    g = g.to(D)
    return axis_rot(2, g[..., 2]) @ axis_rot(1, g[..., 1]) @ axis_rot(2, g[..., 0])


def quat_mat(q: Tensor) -> Tensor:
    """unit quaternion (w, x, y, z) -> matrix by conjugating the basis vectors"""
    q = q.to(D)
    cols = []
    for e in torch.eye(3, dtype=D):
        p = torch.cat((torch.zeros(1, dtype=D), e)).expand(q.shape)
        cols.append(quat_mul(quat_mul(q, p), q * torch.tensor([1.0, -1, -1, -1], dtype=D))[..., 1:])
    return torch.stack(cols, dim=-1)


def quat_mul(a: Tensor, b: Tensor) -> Tensor:
    a, b = torch.broadcast_tensors(a.to(D), b.to(D))
    w1, x1, y1, z1 = a.unbind(-1)
    w2, x2, y2, z2 = b.unbind(-1)
    return torch.stack(
        (
            w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
            w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
            w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
            w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2,
        ),
        -1,
    )


def mat_quat(R: Tensor) -> Tensor:
    """nearest unit quaternion of a matrix: top eigenvector of Bar-Itzhack's K (any R)"""
    R = R.to(D)
    K = torch.zeros(*R.shape[:-2], 4, 4, dtype=D)
    xx, yx, zx = R[..., 0, 0], R[..., 1, 0], R[..., 2, 0]
    xy, yy, zy = R[..., 0, 1], R[..., 1, 1], R[..., 2, 1]
    xz, yz, zz = R[..., 0, 2], R[..., 1, 2], R[..., 2, 2]
    K[..., 0, 0] = xx + yy + zz
    K[..., 0, 1] = K[..., 1, 0] = zy - yz
    K[..., 0, 2] = K[..., 2, 0] = xz - zx
    K[..., 0, 3] = K[..., 3, 0] = yx - xy
    K[..., 1, 1] = xx - yy - zz
    K[..., 1, 2] = K[..., 2, 1] = yx + xy
    K[..., 1, 3] = K[..., 3, 1] = xz + zx
    K[..., 2, 2] = yy - xx - zz
    K[..., 2, 3] = K[..., 3, 2] = zy + yz
    K[..., 3, 3] = zz - xx - yy
    return torch.linalg.eigh(K)[1][..., -1]


def rot_angle(R: Tensor) -> Tensor:
    """rotation angle in [0, pi], accurate everywhere"""
    R = R.to(D)
    s = torch.stack((R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]), -1).norm(dim=-1)
    c = R.diagonal(dim1=-2, dim2=-1).sum(-1) - 1
    return torch.atan2(s, c)


def rot2(theta) -> Tensor:
    theta = torch.as_tensor(theta, dtype=D)
    c, s = torch.cos(theta), torch.sin(theta)
    return torch.stack((torch.stack((c, -s), -1), torch.stack((s, c), -1)), -2)


def octahedral_matrices() -> Tensor:
    """the 24 rotation matrices with entries in {-1,0,1}, exact"""
    import itertools

    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1.0, -1.0), repeat=3):
            M = torch.zeros(3, 3, dtype=D)
            for i in range(3):
                M[i, p[i]] = s[i]
            if torch.linalg.det(M) > 0:
                out.append(M)
    return torch.stack(out)


# ------------------------------------------------------------ interpolation
def so3_dist(q1: Tensor, q2: Tensor, eps=1e-7) -> Tensor:
    """half rotation angle between unit quaternions, with the library's documented
    flattening of distances below acos(1-eps)"""
    return torch.acos(torch.clamp((q1[:, None] * q2[None]).sum(-1).abs(), -1 + eps, 1 - eps))


def so2_dist(a: Tensor, b: Tensor, eps=1e-12) -> Tensor:
    d = torch.cos(a.view(-1, 1) - b.view(1, -1))
    return torch.acos(torch.clamp(d, -1 + eps, 1 - eps))


LN2 = 0.69314718


def rbf_matrix(dist_nodes: Tensor, dist_grid: Tensor, width: float) -> Tensor:
    """interpolation operator A with value(nodes) = A @ signal"""
    phi = lambda d: torch.exp(-(d**2) * LN2 / width**2)
    return torch.linalg.solve(phi(dist_grid).T, phi(dist_nodes).T).T


def nn_matrix(dist_nodes: Tensor) -> Tensor:
    A = torch.zeros_like(dist_nodes)
    A[torch.arange(A.shape[0]), dist_nodes.argmin(-1)] = 1
    return A


def coords(k: int, n: int) -> Tensor:
    """normalised coordinates of a k^n grid in the library's convention, float64:
    2D: entry [i, j] holds (t_i, t_j); 3D: entry [i, j, k] holds (t_k, t_j, t_i)"""
    t = torch.linspace(-1, 1, k, dtype=D) if k > 1 else torch.zeros(1, dtype=D)
    if n == 2:
        a, b = torch.meshgrid(t, t, indexing="ij")
        return torch.stack((a, b), -1)
    a, b, c = torch.meshgrid(t, t, t, indexing="ij")
    return torch.stack((c, b, a), -1)


def ball_mask(k: int, n: int) -> Tensor:
    return (coords(k, n).norm(dim=-1) < 1.1).to(D)


def spatial_sample(w: Tensor, pts: Tensor, mode="bilinear", padding="border") -> Tensor:
    """w (B, C, *k) sampled at normalised points (B, *out, n), last coordinate order
    (x, y[, z]) = (last axis, ..., first axis), pixel-area convention."""
    w, pts = w.to(D), pts.to(D)
    n = pts.shape[-1]
    B, C = w.shape[:2]
    ks = w.shape[2:]
    idx = [((pts[..., d] + 1) * ks[n - 1 - d] - 1) / 2 for d in range(n)][::-1]  # array-axis order
    if padding == "border":
        idx = [i.clamp(0, s - 1) for i, s in zip(idx, ks)]
    elif padding != "zeros":
        raise NotImplementedError
    flat = w.reshape(B, C, -1)
    out = torch.zeros(B, C, *pts.shape[1:-1], dtype=D)

    def take(ii):
        ok = torch.ones_like(ii[0], dtype=torch.bool)
        lin = torch.zeros_like(ii[0])
        for i, s in zip(ii, ks):
            ok &= (i >= 0) & (i < s)
            lin = lin * s + i.clamp(0, s - 1)
        v = flat.gather(2, lin.reshape(B, 1, -1).expand(-1, C, -1)).view(B, C, *lin.shape[1:])
        return v * ok[:, None]

    if mode == "nearest":
        return take([torch.round(i).long() for i in idx])
    lo = [torch.floor(i) for i in idx]
    for corner in range(2**n):
        wt = torch.ones_like(idx[0])
        ii = []
        for d in range(n):
            bit = corner >> d & 1
            f = idx[d] - lo[d]
            wt = wt * (f if bit else 1 - f)
            ii.append((lo[d] + bit).long())
        out = out + wt[:, None] * take(ii)
    return out


# ------------------------------------------------------------- convolutions
def pad_amounts(padding, ks, dil):
    """[(left, right)] per spatial axis"""
    n = len(ks)
    if padding == "same":
        t = [d * (k - 1) for d, k in zip(dil, ks)]
        return [(x // 2, x - x // 2) for x in t]
    if padding == "valid":
        return [(0, 0)] * n
    if isinstance(padding, int):
        padding = (padding,) * n
    return [(p, p) for p in padding]


def pad_index(size, left, right, mode):
    """source index of every padded position, -1 for zeros"""
    out = []
    for i in range(-left, size + right):
        if 0 <= i < size:
            out.append(i)
        elif mode == "zeros":
            out.append(-1)
        elif mode == "replicate":
            out.append(min(max(i, 0), size - 1))
        elif mode == "circular":
            out.append(i % size)
        elif mode == "reflect":
            j = -i if i < 0 else 2 * (size - 1) - i
            out.append(j)
    return out


def conv(x: Tensor, w: Tensor, stride, padding, dilation, padding_mode) -> Tensor:
    """cross-correlation of x (N, C, *s) with w (O, C, *k) by explicit gathering"""
    x, w = x.to(D), w.to(D)
    ks = w.shape[2:]
    n = len(ks)
    for ax, (l, r) in enumerate(pad_amounts(padding, ks, dilation)):
        src = pad_index(x.shape[2 + ax], l, r, padding_mode)
        t = torch.tensor(src)
        x = x.index_select(2 + ax, t.clamp(min=0))
        keep = (t >= 0).to(D).view([-1 if a == 2 + ax else 1 for a in range(x.ndim)])
        x = x * keep
    osz = [(x.shape[2 + a] - dilation[a] * (ks[a] - 1) - 1) // stride[a] + 1 for a in range(n)]
    out = torch.zeros(x.shape[0], w.shape[0], *osz, dtype=D)
    for off in torch.cartesian_prod(*[torch.arange(k) for k in ks]).reshape(-1, n).tolist():
        sl = tuple(
            slice(o * dilation[a], o * dilation[a] + (osz[a] - 1) * stride[a] + 1, stride[a]) for a, o in enumerate(off)
        )
        out = out + torch.einsum("nc...,oc->no...", x[(slice(None), slice(None)) + sl], w[(slice(None), slice(None)) + tuple(off)])
    return out
