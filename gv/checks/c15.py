"""C15 randomised output grids: the returned grid is the grid that was used"""
import dataclasses

import torch

from gv import layers as L, refs
from gv.checks import c10
from gv.core import Family
from gv.groups import GROUPS
from gv.refs import D

PROPERTY = "C15"


def setup(ctx, **over):
    c10.KIND = L.KINDS
    s, m, mag = c10.make(ctx, permute=True, **over)
    hi = L.rand_H(ctx, s.fam, ctx.size(1, 4, what="in_H")).to(s.dtype)
    ho = L.rand_H(ctx, s.fam, ctx.size(1, 5, what="out_H")).to(s.dtype)
    dims = L.spatial(ctx, s, lo=2)
    x = L.features(ctx, s, ctx.size(1, 1, 1, 0, what="N"), dims, len(hi))
    ctx.describe(**s.brief(), n_in=len(hi), n_out=len(ho))
    return s, m, hi, ho, x


def base(m, s, hi, ho, given):
    if given:
        return ho
    if s.kind == "lift" or s.E:
        return m.kernel.grid_H
    return hi


def forward(ctx, m, s, x, hi, ho, given):
    args = ([x] if s.kind == "lift" else [x, hi]) + ([ho] if given else [])
    return ctx.call(f"permuted:{s.kind}{s.fam}", m, *args)


def factor(ctx, s, H, H0):
    """the g with H = g.H0, as a faithful matrix per element"""
    rep = GROUPS[L.FAM[s.fam]].rep
    return rep(H) @ torch.linalg.inv(rep(H0))


MODES = {"grad": torch.enable_grad, "no-grad": torch.no_grad, "inference": torch.inference_mode}


def contract(ctx):
    """(y, H): H is one random group element times the requested grid and y is the response on H"""
    s, m, hi, ho, x = setup(ctx, dtype=torch.float32 if ctx.rng.random() < 0.2 else D)
    given = ctx.rng.random() < 0.6
    seed = ctx.rng.randrange(1 << 30)
    # neither the training flag nor the gradient mode is a switch for randomisation
    m.train(ctx.rng.random() < 0.5)
    with MODES[ctx.choice("gradients", ["grad", "no-grad", "inference"])]():
        contract_in(ctx, s, m, hi, ho, x, given, seed)


def contract_in(ctx, s, m, hi, ho, x, given, seed):
    ctx.event(f"mode:{'train' if m.training else 'eval'}:{'grad' if torch.is_grad_enabled() else 'inference' if torch.is_inference_mode_enabled() else 'no-grad'}")
    keep = m.kernel.grid_H.clone()
    torch.manual_seed(seed)
    y, H = forward(ctx, m, s, x, hi, ho, given)
    H0 = base(m, s, hi, ho, given)
    ctx.same("reference-grid-unmodified", m.kernel.grid_H, keep)
    ctx.check("returned-grid-shape", H.shape == H0.shape and H.dtype == H0.dtype, f"{H.shape} {H.dtype} {H0.dtype}")
    # the factor is a single element of the group
    t = 5e-4 if s.grid is None or s.dtype == torch.float32 else 1e-5
    g = factor(ctx, s, H, H0)
    ctx.close("one-random-element", g, g[:1].expand_as(g), t)
    R = g[0]
    if s.E:
        ctx.check("coset-sign", abs(abs(R[0, 0].item()) - 1) < 1e-6 and R[0, 1:].abs().max() < 1e-6)
        R = R[1:, 1:]
    ctx.close("factor-is-a-rotation", R @ R.mT, torch.eye(s.n, dtype=D), t)
    ctx.check("factor-is-a-rotation", abs(torch.linalg.det(R) - 1) < 1e-2)
    # the response belongs to the returned grid
    s2 = dataclasses.replace(s, permute=False)
    twin = L.build(s2)
    twin.load_state_dict(m.state_dict())
    y2, H2 = L.run(ctx, twin, s2, x, hi, H)
    ctx.same("fixed-grid-is-returned", H2, H)
    ctx.close("response-on-returned-grid", y, y2, max(y.abs().max().item(), 1e-12) * (1e-10 if s.dtype == D else 1e-5))
    # reproducible from the seed, different without it
    torch.manual_seed(seed)
    y3, H3 = forward(ctx, m, s, x, hi, ho, given)
    ctx.same("reproducible-grid", H3, H)
    ctx.equal("reproducible-response", y3, y)
    _, H4 = forward(ctx, m, s, x, hi, ho, given)
    ctx.check("fresh-element-per-call", (H4 - H).abs().max() > 1e-6, "two calls used the same random element")


def fixed(ctx):
    """permute_output_grid=False is deterministic and keeps the requested grid"""
    s, m, hi, ho, x = setup(ctx)
    s.permute = False
    m = L.build(s).train(ctx.rng.random() < 0.5)
    torch.manual_seed(1)
    y, H = L.run(ctx, m, s, x, hi, ho)
    torch.manual_seed(2)
    z, H2 = L.run(ctx, m, s, x, hi, ho)
    ctx.equal("deterministic", y, z)
    ctx.same("requested-grid", H, ho)
    ctx.same("requested-grid", H2, ho)


def uniformity(ctx):
    """the random element covers the whole group"""
    fam, kind = ctx.choice("fam", list(L.FAM)), ctx.choice("kind", L.KINDS)
    s = L.Spec(kind, fam, 1, 1, 1, gk=(1, 1) if fam in ("E2", "E3") else 1, permute=True, width=0.5, width2=0.5, mask=False)
    m = L.build(s)
    n, N = s.n, 400
    hi = L.rand_H(ctx, fam, 1)
    ho = L.rand_H(ctx, fam, 1)
    x = torch.ones(1, 1, *(() if kind == "lift" else (1,)), *(1,) * n, dtype=D)
    Rs, cs = [], []
    for _ in range(N):
        _, H = forward(ctx, m, s, x, hi, ho, True)
        g = factor(ctx, s, H, ho)[0]
        if s.E:
            cs.append(g[0, 0].item())
            g = g[1:, 1:]
        Rs.append(g)
    R = torch.stack(Rs)
    # Haar: E[R] = 0 with entries of variance 1/n; six standard errors
    ctx.check("haar-mean", R.mean(0).abs().max() < 6 * (1 / n) ** 0.5 / N**0.5, f"mean {R.mean(0)}")
    if n == 3:
        ang = refs.rot_angle(R)
        # Haar angle distribution: E[angle] = pi/2 + 2/pi, sd 0.6
        ctx.check("haar-angle", abs(ang.mean() - (torch.pi / 2 + 2 / torch.pi)) < 6 * 0.65 / N**0.5, f"mean angle {ang.mean()}")
    else:
        a = torch.atan2(R[:, 1, 0], R[:, 0, 0])
        counts = torch.histc(a, 8, -torch.pi, torch.pi)
        ctx.check("haar-angle", (counts - N / 8).abs().max() < 6 * (N / 8) ** 0.5, str(counts))
    if s.E:
        ctx.event("coset:+", sum(c > 0 for c in cs))
        ctx.event("coset:-", sum(c < 0 for c in cs))
        ctx.check("fair-coset", abs(sum(c > 0 for c in cs) - N / 2) < 7 * (N / 4) ** 0.5, f"{sum(c > 0 for c in cs)} of {N} elements are rotations")
    ctx.event("random-elements", N)


FAMILIES = [
    Family("contract", contract, 360, 7000),
    Family("fixed", fixed, 100, 1500),
    Family("uniformity", uniformity, 24, 96),
]
