"""C11 separable, full and subgroup group convolutions are equivariant"""
import torch

from gconv.gnn.kernels import GSubgroupKernelSO3
from gv import layers as L, refs
from gv.checks import c10
from gv.core import Family
from gv.groups import rot3
from gv.refs import D

PROPERTY = "C11"


def scoped(fn):
    def f(ctx):
        c10.KIND = ("sep", "conv")
        try:
            fn(ctx)
        finally:
            c10.KIND = ("lift",)

    return f


def subgroup(ctx):
    """the group part of a kernel depends on h'^-1 h only: left-invariant under EVERY group element"""
    fam = ctx.choice("fam", list(L.FAM) + ["SO3"])
    tight = ctx.rng.random() < 0.5
    if fam == "SO3":
        n = ctx.rng.choice([1, 2, 4, 6, 12])
        grid = L.spread_rotations(ctx, n) if ctx.flip("given") else None
        cg = ctx.rng.randint(1, 2)
        m = GSubgroupKernelSO3(2 * cg, 2, n, groups=ctx.rng.choice([1, 2]), grid_H=None if grid is None else grid.float()).double()
        L.init(ctx, m)
        hi, ho = rot3(ctx, ctx.size(1, 5)), rot3(ctx, ctx.size(1, 5))
        f = lambda a, b: ctx.call("kernel:subgroupSO3", m, a, b)
        key, mulf = "SE3", "SE3"
    else:
        s = L.spec(ctx, "sep", fam, gmode="rbf", dtype=D)
        m = L.build(s)
        L.init(ctx, m)
        hi, ho = (L.rand_H(ctx, fam, ctx.size(1, 5)) for _ in range(2))
        f = lambda a, b: ctx.call(f"kernel:sep{fam}", m.kernel, a, b)[0]
        mulf = fam
    w = f(hi, ho)
    ctx.describe(n_in=len(hi), n_out=len(ho))
    for _ in range(2):
        g = L.rand_H(ctx, mulf, 1)
        wg = f(L.mul(mulf, g, hi), L.mul(mulf, g, ho))
        # acos near coincident elements amplifies rounding to 1e-12, translations of fp32 grids to more
        ctx.close(f"left-invariance:{fam}", wg, w, max(w.abs().max().item(), 1e-12) * 2e-6)
    # not invariant under unrelated elements: the kernel really looks at h'^-1 h
    ctx.event("invariance-under-arbitrary-elements")


FAMILIES = [
    Family("symmetry", scoped(c10.symmetry), 420, 9000),
    Family("relabelled", scoped(c10.relabelled), 160, 3000),
    Family("translation", scoped(c10.translation), 160, 3000),
    Family("subgroup", subgroup, 200, 4000),
]
