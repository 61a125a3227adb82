"""C12 feature maps are functions of (position, group element), not of array order"""
import torch

from gv import layers as L
from gv.checks import c10
from gv.core import Family
from gv.refs import D

PROPERTY = "C12"


def setup(ctx, kinds=("sep", "conv"), **over):
    c10.KIND = kinds
    s, m, mag, hi, ho = c10.pair(ctx, **over)
    dims = L.spatial(ctx, s, lo=2)
    x = L.features(ctx, s, ctx.size(1, 3, what="N"), dims, hi.shape[0])
    y, H = L.run(ctx, m, s, x, hi, ho)
    ctx.same("returned-grid", H, ho)
    ctx.check("group-axis", y.shape[:3] == (x.shape[0], s.cout, len(ho)), str(y.shape))
    return s, m, hi, ho, x, y


def tol(s, y):
    return max(y.abs().max().item(), 1e-12) * 1e-9


def relabel(ctx):
    """permuting input elements together with the input's group axis changes nothing; permuting,
    selecting or repeating output elements permutes, selects or repeats the output"""
    s, m, hi, ho, x, y = setup(ctx, ("lift", "sep", "conv"))
    t = tol(s, y)
    if s.kind != "lift":
        p = torch.randperm(len(hi))
        z, _ = L.run(ctx, m, s, x[:, :, p], hi[p], ho)
        ctx.close("input-order", z, y, t)
    p = torch.randperm(len(ho))
    z, H = L.run(ctx, m, s, x, hi, ho[p])
    ctx.close("output-order", z, y[:, :, p], t)
    ctx.same("returned-grid", H, ho[p])
    q = torch.randint(0, len(ho), (ctx.rng.randint(1, len(ho) + 2),))
    z, H = L.run(ctx, m, s, x, hi, ho[q])
    ctx.close("output-selection", z, y[:, :, q], t)
    i = ctx.rng.randrange(len(ho))
    z, _ = L.run(ctx, m, s, x, hi, ho[i : i + 1])
    ctx.close("output-elementwise", z, y[:, :, i : i + 1], t)


def measure(ctx):
    """the input is a sum over group elements: splitting, merging and cancelling elements"""
    s, m, hi, ho, x, y = setup(ctx, bias=False)
    n = len(hi)
    t = tol(s, y) * 10
    k = ctx.rng.randint(0, n)
    parts = 0
    for sl in (slice(0, k), slice(k, n)):
        if hi[sl].shape[0]:
            parts = parts + L.run(ctx, m, s, x[:, :, sl], hi[sl], ho)[0]
    ctx.close("input-additivity", parts, y, t)
    # a repeated element with the value split between the copies
    i, a = ctx.rng.randrange(n), ctx.rng.random()
    x2 = torch.cat((x, x[:, :, i : i + 1] * a), 2)
    x2[:, :, i] *= 1 - a
    z, _ = L.run(ctx, m, s, x2, torch.cat((hi, hi[i : i + 1])), ho)
    ctx.close("input-duplicates", z, y, t)
    # elements that carry nothing
    e = L.rand_H(ctx, s.fam, 2).to(s.dtype)
    if s.gmode == "rbf":
        z, _ = L.run(ctx, m, s, torch.cat((x, torch.zeros_like(x[:, :, :1]).repeat_interleave(2, 2)), 2), torch.cat((hi, e)), ho)
        ctx.close("input-zeros", z, y, t)


def representation(ctx):
    """the same rotation written differently (angle + 2 pi k) is the same group element"""
    s, m, hi, ho, x, y = setup(ctx, ("lift", "sep", "conv"), fam=ctx.rng.choice(["SE2", "E2"]))
    def turn(h):
        k = torch.randint(-3, 4, (len(h), 1)).to(h.dtype) * 2 * torch.pi
        return torch.cat((h[:, :-1], h[:, -1:] + k), -1)
    z, _ = L.run(ctx, m, s, x, turn(hi), turn(ho))
    ctx.close("angles-mod-2pi", z, y, tol(s, y) * 1000)


def batch(ctx):
    """items of a batch and memory layouts do not influence each other"""
    s, m, hi, ho, x, y = setup(ctx, ("lift", "sep", "conv"))
    i = ctx.rng.randrange(len(x))
    z, _ = L.run(ctx, m, s, x[i : i + 1], hi, ho)
    ctx.close("batch-independence", z, y[i : i + 1], tol(s, y))
    p = torch.randperm(len(x))
    z, _ = L.run(ctx, m, s, x[p], hi, ho)
    ctx.close("batch-order", z, y[p], tol(s, y))
    xs = x.transpose(0, 1).contiguous().transpose(0, 1)
    xs = xs.transpose(-1, -2).contiguous().transpose(-1, -2) if ctx.flip("both") else xs
    hs = torch.cat((hi, hi), 0)[: len(hi)] if ctx.flip("slice") else hi.expand_as(hi)
    z, _ = L.run(ctx, m, s, xs, hs, ho.flip(0).flip(0))
    ctx.close("memory-layout", z, y, tol(s, y))
    hh = torch.stack((hi, torch.full_like(hi, 7.0)), 1)[:, 0]  # strided grid
    ho2 = torch.stack((ho, torch.full_like(ho, 7.0)), 1)[:, 0]
    z, _ = L.run(ctx, m, s, x, hh, ho2)
    ctx.close("memory-layout", z, y, tol(s, y))


def channels(ctx):
    """groups: output channel o sees exactly the input channels of its own group"""
    s, m, hi, ho, x, y = setup(ctx, ("lift", "sep", "conv"), groups=2, cin=4, cout=4, bias=False)
    g = ctx.rng.randrange(2)
    x2 = x.clone()
    x2[:, 2 * g : 2 * g + 2] = 0
    z, _ = L.run(ctx, m, s, x2, hi, ho)
    o = 1 - g
    ctx.close("other-group-untouched", z[:, 2 * o : 2 * o + 2], y[:, 2 * o : 2 * o + 2], tol(s, y))
    ctx.close("own-group-silent", z[:, 2 * g : 2 * g + 2], torch.zeros_like(z[:, :2]), 1e-30 + tol(s, y) * 1e-3)


FAMILIES = [
    Family("relabel", relabel, 280, 5000),
    Family("measure", measure, 220, 4000),
    Family("representation", representation, 100, 1500),
    Family("batch", batch, 220, 4000),
    Family("channels", channels, 140, 2500),
]
