"""Case runner, monitors and verdicts.

A check module defines

    PROPERTY = "Cxx"
    RULE = "<how cases are made, what makes one non-trivial>"
    FAMILIES = [Family("name", fn, quick=<cases>, thorough=<cases>), ...]
    REQUIRED = {"monitor name": minimum events}      (optional)

and every `fn(ctx)` drives the real library once with inputs drawn from
`ctx.rng` / torch's global generator (both seeded from VERIF_SEED, the property,
the family and the case index) while the monitors of `ctx` judge what it observes.
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
from dataclasses import dataclass, field

import torch

QUICK_SCALE = 6  # the family counts are relative weights

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclass
class Family:
    name: str
    fn: object
    quick: int
    thorough: int
    fixed: bool = False  # the case index enumerates a finite list, ignore the seed


class Violation(Exception):
    def __init__(self, monitor, message, detail=None):
        super().__init__(f"{monitor}: {message}")
        self.monitor, self.message, self.detail = monitor, message, detail or {}


class Inconclusive(Exception):
    pass


def _look(t):
    """what a caller can see of a tensor besides its values"""
    return tuple(t.shape), t.stride(), t.storage_offset(), t.dtype, t.requires_grad


def _tensors(obj, path="arg"):
    if isinstance(obj, torch.Tensor):
        yield path, obj
    elif isinstance(obj, (tuple, list)):
        for i, o in enumerate(obj):
            yield from _tensors(o, f"{path}[{i}]")
    elif isinstance(obj, dict):
        for k, o in obj.items():
            yield from _tensors(o, f"{path}[{k!r}]")


def brief(obj, limit=400):
    if isinstance(obj, torch.Tensor):
        s = f"tensor{tuple(obj.shape)}:{str(obj.dtype)[6:]}"
        if obj.numel() <= 16:
            s += str(obj.detach().tolist())
        return s
    s = repr(obj)
    return s if len(s) <= limit else s[:limit] + "..."


def ambient():
    """process-wide settings of torch that no call of a library may change"""
    return (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.get_default_dtype(), torch.get_num_threads(),
            torch.are_deterministic_algorithms_enabled(), torch.is_anomaly_enabled())


class Ctx:
    """One case: source of randomness, call boundary and monitors."""

    def __init__(self, prop, family, index, seed, stats, known):
        self.prop, self.family, self.index, self.seed = prop, family, index, seed
        self.rng = random.Random(seed)
        self.stats = stats
        self.known = known
        self.desc: dict = {}
        self.trivial = False
        self.vast = None  # the one dimension this case takes to sizes of practice (see size)

    # -- descriptors ------------------------------------------------------
    def describe(self, **kw):
        for k, v in kw.items():
            v = tuple(v) if isinstance(v, torch.Size) else v
            self.desc[k] = v if isinstance(v, (int, float, str, bool, type(None), list, tuple)) else brief(v)

    def choice(self, name, options):
        v = self.rng.choice(list(options))
        self.describe(**{name: v})
        return v

    def randint(self, name, lo, hi):
        v = self.rng.randint(lo, hi)
        self.describe(**{name: v})
        return v

    VAST = [15, 16, 17, 24, 25, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129]

    def size(self, lo, hi, big=None, p=0.12, what=None):
        """mostly lo..hi, sometimes far beyond: code often treats large inputs differently"""
        if self.vast is not None and what is not None:
            if what == self.vast:
                self.event("vast:" + what)
                return self.rng.choice(self.VAST)
            return self.rng.randint(lo, min(hi, 2))
        if self.rng.random() < p:
            self.event("large-size")
            big = big or 3 * hi
            edge = [n for k in range(3, 11) for n in (2**k - 1, 2**k, 2**k + 1) if hi < n <= big]
            if edge and self.rng.random() < 0.6:  # where blocks of work begin and end
                return self.rng.choice(edge)
            return self.rng.randint(hi + 1, big)
        return self.rng.randint(lo, hi)

    def flip(self, name, p=0.5):
        v = self.rng.random() < p
        self.describe(**{name: v})
        return v

    def layout(self, t):
        """the same values in another memory layout, or as a leaf that requires gradients"""
        r = self.rng.random()
        if r < 0.55 or t.ndim == 0 or t.numel() == 0:
            return t
        self.event("unusual-layout")
        if r < 0.67:  # every other row of a larger tensor
            v = t.new_full((2 * t.shape[0], *t.shape[1:]), 3.25)[::2]
            v.copy_(t)
            return v
        if r < 0.79:  # strided last axis
            v = t.new_full((*t.shape, 2), -1.75)[..., 0]
            v.copy_(t)
            return v
        if r < 0.91:  # column major
            return t.transpose(0, -1).contiguous().transpose(0, -1)
        return t.detach().clone().requires_grad_()

    # -- events and verdicts ------------------------------------------------
    def event(self, name, n=1):
        self.stats.events[name] = self.stats.events.get(name, 0) + n

    def ratio(self, name, r):
        if r > self.stats.margin.get(name, -1.0):
            self.stats.margin[name] = r

    def fail(self, monitor, message, **detail):
        raise Violation(monitor, message, {k: brief(v, 2000) for k, v in detail.items()})

    def check(self, monitor, cond, message="", **detail):
        self.event(monitor)
        if not bool(cond):
            self.fail(monitor, message or "condition is false", **detail)

    def close(self, monitor, got, want, atol, rtol=0.0, **detail):
        """got == want within atol + rtol*|want|, same shape, no NaN."""
        self.event(monitor)
        g = got if isinstance(got, torch.Tensor) else torch.as_tensor(got)
        w = want if isinstance(want, torch.Tensor) else torch.as_tensor(want)
        g, w = g.detach(), w.detach()
        if g.shape != w.shape:
            self.fail(monitor, f"shape {tuple(g.shape)} instead of {tuple(w.shape)}", **detail)
        if g.numel() == 0:
            return
        g, w = g.double(), w.double()
        if not torch.isfinite(w).all():
            raise Inconclusive(f"{monitor}: the reference is not finite")
        if not torch.isfinite(g).all():
            self.fail(monitor, "non-finite values", got=g, **detail)
        err = (g - w).abs()
        tol = atol + rtol * w.abs()
        r = (err / tol).max().item()
        self.ratio(monitor, r)
        if not r <= 1.0:
            i = int((err / tol).argmax())
            self.fail(
                monitor,
                f"differs by {err.flatten()[i].item():.3e} (tolerance "
                f"{tol.flatten()[i].item() if tol.numel() > 1 else float(tol):.3e}) at flat index {i}: "
                f"got {g.flatten()[i].item():.6g}, expected {w.flatten()[i].item():.6g}",
                **detail,
            )

    def same(self, monitor, got, want, **detail):
        """bitwise equal tensors (shape, dtype, values)."""
        self.event(monitor)
        if got.shape != want.shape or got.dtype != want.dtype:
            self.fail(monitor, f"{brief(got)} instead of {brief(want)}", **detail)
        if not torch.equal(got, want):
            self.fail(monitor, f"values differ by up to {(got.double() - want.double()).abs().max().item():.3e}", **detail)

    def equal(self, monitor, got, want, **detail):
        """the same computation again: equal up to a few roundings of the largest entry"""
        w = want.detach()
        scale = w.abs().max().item() if w.numel() else 0.0
        if got.dtype != want.dtype:
            self.fail(monitor, f"{brief(got)} instead of {brief(want)}", **detail)
        self.close(monitor, got, want, max(scale, 1e-30) * (1e-11 if w.dtype == torch.float64 else 2e-5), **detail)

    def call(self, name, fn, *args, may_mutate=False, finite=True, **kwargs):
        """The observed boundary: call into the library, watching that arguments
        are not modified and that finite inputs do not give non-finite outputs."""
        self.event("call:" + name)
        before = [(p, t, t.detach().clone(), _look(t)) for p, t in _tensors((args, kwargs))] if not may_mutate else []
        mode = ambient()
        out = fn(*args, **kwargs)
        if ambient() != mode:
            self.fail("global-state-unchanged", f"{name} changed the state of the process: {mode} -> {ambient()}")
        for p, t, c, look in before:
            self.event("monitor:arguments-unmodified")
            if _look(t) != look:
                self.fail("arguments-unmodified", f"{name} changed its argument {p} from {look} to {_look(t)}")
            if t.shape != c.shape or not torch.equal(t.detach().nan_to_num(7e77 if t.dtype == torch.float64 else 7e37) if t.is_floating_point() else t,
                                                    c.nan_to_num(7e77 if c.dtype == torch.float64 else 7e37) if c.is_floating_point() else c):
                self.fail("arguments-unmodified", f"{name} modified its argument {p}", before=c, after=t)
        if finite:
            for p, t in _tensors(out, "result"):
                if t.is_floating_point():
                    self.event("monitor:finite-result")
                    if not torch.isfinite(t.detach()).all():
                        self.fail("finite-result", f"{name} returned non-finite values in {p}", args=[brief(a) for a in args], out=t)
        return out

    def raises(self, monitor, exc, fn, *args, **kwargs):
        self.event(monitor)
        try:
            out = fn(*args, **kwargs)
        except exc:
            return
        except Exception as e:
            self.fail(monitor, f"raised {type(e).__name__}: {e} instead of {exc}")
        self.fail(monitor, f"accepted instead of raising {exc}", out=out)

    def known_finding(self, key, detail=""):
        """The observation matches a recorded finding's mechanism exactly."""
        self.event("known-finding:" + key)
        if key not in self.known:
            self.fail("known-finding", f"unlisted finding {key}: {detail}")
        self.stats.known.setdefault(key, detail)

    # -- randomness helpers -------------------------------------------------
    def randn(self, *shape, dtype=torch.float64):
        return torch.randn(*shape, dtype=dtype)


@dataclass
class Stats:
    events: dict = field(default_factory=dict)
    margin: dict = field(default_factory=dict)
    known: dict = field(default_factory=dict)
    cases: int = 0
    descs: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    per_family: dict = field(default_factory=dict)
    violations: list = field(default_factory=list)
    inconclusive: list = field(default_factory=list)
    planned: int = 0


def case_seed(base, prop, family, index):
    h = hashlib.sha256(f"{base}|{prop}|{family}|{index}".encode()).digest()
    return int.from_bytes(h[:7], "big")


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return data["findings"]


def torch_setup():
    warnings.simplefilter("ignore")
    torch.set_num_threads(1)
    # uninitialised-memory sanitizer: every torch.empty/new_empty is filled with NaN
    torch.use_deterministic_algorithms(True, warn_only=True)
    torch.utils.deterministic.fill_uninitialized_memory = True
    assert torch.isnan(torch.empty(3)).all() and torch.isnan(torch.ones(2).new_empty(3)).all()


def run_case(mod, fam, index, base_seed, stats, known, verbose=False):
    seed = case_seed(0 if fam.fixed else base_seed, mod.PROPERTY, fam.name, index)
    ctx = Ctx(mod.PROPERTY, fam.name, index, seed, stats, known)
    torch.manual_seed(seed)
    stats.cases += 1
    stats.per_family[fam.name] = stats.per_family.get(fam.name, 0) + 1
    try:
        fam.fn(ctx)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Inconclusive as e:
        stats.inconclusive.append({"family": fam.name, "index": index, "reason": str(e)})
    except Violation as v:
        stats.violations.append(
            dict(family=fam.name, index=index, monitor=v.monitor, message=v.message, detail=v.detail, case=ctx.desc)
        )
    except Exception as e:
        if "allocate memory" in str(e):
            raise MemoryError(str(e))
        tb = traceback.format_exc()
        stats.violations.append(
            dict(family=fam.name, index=index, monitor="no-exception", message=f"{type(e).__name__}: {e}"[:800],
                 detail={"traceback": tb[-3000:]}, case=ctx.desc)
        )
    if verbose:
        print(fam.name, index, json.dumps(ctx.desc))
    key = json.dumps([fam.name, ctx.desc if ctx.desc else index], sort_keys=True, default=str)
    if not ctx.trivial:
        stats.descs[hashlib.md5(key.encode()).hexdigest()] = 1
        n = sum(1 for s in stats.samples if s["family"] == fam.name)
        if n < 2:
            stats.samples.append({"family": fam.name, "index": index, "case": ctx.desc})


def run_shard(mod, tier, base_seed, shard, nshards, deadline, begin=lambda family, index: None, found=lambda stats: None):
    stats = Stats()
    known = {f["id"]: f for f in load_known() if f["property"] == mod.PROPERTY}
    todo = []
    for fam in mod.FAMILIES:
        n = fam.quick * QUICK_SCALE if tier == "quick" and not fam.fixed else fam.quick if tier == "quick" else fam.thorough
        # interleave the families, so that a cut-off hits all of them alike
        todo += [((i + 0.5) / n, fam.name, i, fam) for i in range(n)]
    todo.sort(key=lambda t: t[:3])
    todo = todo[shard::nshards]
    stats.planned = len(todo)
    for _, _, i, fam in todo:
        if time.time() > deadline:
            break
        begin(fam.name, i)
        n = len(stats.violations)
        run_case(mod, fam, i, base_seed, stats, known)
        if len(stats.violations) > n:
            found(stats)
        if len(stats.violations) >= 5:
            break
    return stats
