"""C18 modules are pure: no hidden state, no history, no interference between threads"""
import copy
import dataclasses
import gc
import os
import random
import sys
import weakref
import threading
import warnings

import torch

from gconv import gnn
from gconv.geometry import o2, o3, repulsion, so2, so3
from gconv.geometry.groups import s2
from gconv.gnn import functional as gF
from gconv.gnn.kernels import GSubgroupKernelSO3
from gv import layers as L
from gv.core import Family
from gv.groups import GROUPS
from gv.refs import D
from gv.tables import FUNCTIONS, MODULES

PROPERTY = "C18"


def draw(ctx, **over):
    over.setdefault("permute", False)
    s = L.spec(ctx, **over)
    m = L.build(s)
    L.init(ctx, m)
    hi, ho = (L.rand_H(ctx, s.fam, ctx.size(1, 4, what=w)).to(s.dtype) for w in ("in_H", "out_H"))
    x = L.features(ctx, s, ctx.size(1, 2, 9, what="N"), L.spatial(ctx, s, lo=2), len(hi))
    return s, m, hi, ho, x


def snapshot(m):
    return {k: v.clone() for k, v in m.state_dict().items()}, sorted(
        k for k, v in m.__dict__.items() if not k.startswith("_")), {
        k: copy.deepcopy(v) for k, v in m.kernel.__dict__.items() if k in ("sample_H_kwargs", "sample_Rn_kwargs")}


def unchanged(ctx, m, snap):
    sd, names, kw = snap
    now = m.state_dict()
    ctx.check("state-keys", list(now) == list(sd), f"{list(now)} {list(sd)}")
    for k in sd:
        ctx.same("state-unmodified", now[k], sd[k], key=k)


def noise(ctx, pool):
    """an unrelated operation of the library"""
    r = ctx.rng.randrange(7)
    if r == 0:
        t = draw(ctx)
        pool.append(t)
        L.run(ctx, t[1], t[0], t[4], t[2], t[3])
    elif r == 1 and pool:
        s, m, hi, ho, x = ctx.rng.choice(pool)
        y, _ = L.run(ctx, m, s, x.clone().requires_grad_(), hi, ho)
        y.square().sum().backward()
        with torch.no_grad():
            for p in m.parameters():
                if p.grad is not None:
                    p -= 1e-2 * p.grad
    elif r == 2:
        so3.uniform_grid(ctx.rng.randint(1, 24), "matrix").mul_(0)
    elif r == 3:
        o3.uniform_grid((2, 3)).fill_(5)
        o2.uniform_grid((3, 2)).fill_(5)
    elif r == 4 and pool:
        ctx.rng.choice(pool)[1].reset_parameters()
    elif r == 5 and pool:
        s, m, *_ = ctx.rng.choice(pool)
        m.to(ctx.rng.choice([torch.float32, D])).to(D)
    else:
        torch.randn(3)
        so2.random_grid(3)
        so3.random_quat(2)
    ctx.event("unrelated-operations")


def history(ctx):
    """the response is a function of parameters and inputs, whatever happened before elsewhere"""
    s, m, hi, ho, x = draw(ctx)
    ctx.describe(**s.brief())
    snap = snapshot(m)
    y, H = L.run(ctx, m, s, x, hi, ho)
    y0 = y.detach().clone()
    unchanged(ctx, m, snap)
    pool = []
    for _ in range(ctx.randint("ops", 1, 8)):
        noise(ctx, pool)
        if ctx.rng.random() < 0.3:  # other inputs through the same module
            h2 = L.rand_H(ctx, s.fam, ctx.size(1, 5)).to(s.dtype)
            L.run(ctx, m, s, L.features(ctx, s, 1, L.spatial(ctx, s, lo=2), len(h2)), h2, ho)
        if ctx.rng.random() < 0.3:
            m.train(ctx.rng.random() < 0.5)
            with torch.set_grad_enabled(ctx.rng.random() < 0.5):
                L.run(ctx, m, s, x, hi, ho)
        ctx.same("earlier-result-unmodified", y.detach(), y0)
        z, _ = L.run(ctx, m, s, x, hi, ho)
        ctx.equal("history-independent", z.detach(), y0)
    unchanged(ctx, m, snap)
    with torch.no_grad():  # writing to results must not reach the module
        y.fill_(3.0)
        H.fill_(3.0) if H.data_ptr() != ho.data_ptr() else None
    unchanged(ctx, m, snap)
    z, _ = L.run(ctx, m, s, x, hi, L.mul(s.fam, L.GROUPS[L.FAM[s.fam]].identity(), ho) if H.data_ptr() != ho.data_ptr() else ho)
    ctx.equal("history-independent", z.detach(), y0)


def construction(ctx):
    """building a layer is reproducible from the seed and unaffected by other layers"""
    s, _, hi, ho, x = draw(ctx, dtype=ctx.rng.choice([D, torch.float32, torch.float32]))
    ctx.describe(**s.brief())
    seed = ctx.rng.randrange(1 << 30)

    def make():
        torch.manual_seed(seed)
        return L.build(s)

    a = make()
    sa = {k: v.clone() for k, v in a.state_dict().items()}
    pool = []
    for _ in range(3):
        noise(ctx, pool)
    with torch.set_grad_enabled(ctx.flip("grad-mode")):
        b = make()
    ctx.check("all-parameters-trainable", all(p.requires_grad for p in b.parameters()))
    ctx.check("same-keys", list(sa) == list(b.state_dict()))
    for k, v in b.state_dict().items():
        ctx.same("reproducible-construction", v, sa[k], key=k)
    ya, yb = (L.run(ctx, m, s, x, hi, ho)[0] for m in (a, b))
    ctx.equal("reproducible-construction", ya, yb)
    with torch.no_grad():  # no storage is shared between layers
        for t in b.state_dict().values():
            t.add_(1)
    for k, v in a.state_dict().items():
        ctx.same("layers-share-nothing", v, sa[k], key=k)
    c = make()
    for k, v in c.state_dict().items():
        ctx.same("layers-share-nothing", v, sa[k], key=k)
    torch.manual_seed(seed)
    a.reset_parameters()
    torch.manual_seed(seed)
    c.reset_parameters()
    for k, v in c.state_dict().items():
        ctx.same("reproducible-reset", v, a.state_dict()[k], key=k)


class Scaled(torch.nn.Module):
    def forward(self, w):
        return 3 * w


def live():
    if not gc.get_freeze_count():
        gc.freeze()  # what the interpreter holds anyway
    gc.collect()
    return sum(isinstance(o, torch.Tensor) for o in gc.get_objects())


def released(ctx):
    """after a call nothing of it stays alive: no argument, no result, no graph, and repeated calls add no tensors"""
    s, m, hi, ho, x = draw(ctx)
    ctx.describe(**s.brief())
    m.train(ctx.flip("train"))

    def once(check):
        a = [x.clone().requires_grad_(), hi.clone(), ho.clone()]
        refs_ = [("input", a[0]), ("input grid", a[1]), ("output grid", a[2])]
        args = (a[0], a[2]) if s.kind == "lift" else tuple(a)
        with torch.set_grad_enabled(grad):
            y, H = m(*args)
            if grad:
                y.sum().backward()
        refs_ += [("response", y)] + ([("gradient", a[0].grad)] if grad else [])
        refs_ = [(n, weakref.ref(t)) for n, t in refs_]
        del a, args, y, H
        if any(r() is not None for _, r in refs_):
            gc.collect()
        if check:
            for n, r in refs_:
                ctx.check("released", r() is None, f"the {n} of a call is kept alive")

    grad = ctx.flip("grad")
    once(True)
    m.zero_grad(set_to_none=True)
    before = live()
    for _ in range(3):
        hi, ho = (L.rand_H(ctx, s.fam, len(h)).to(s.dtype) for h in (hi, ho))
        once(False)
    m.zero_grad(set_to_none=True)
    after = live()
    ctx.check("no-tensors-left-behind", after <= before, f"{after - before} tensors more after three calls")


def refilled(ctx):
    """the response belongs to the values of inputs, grids, parameters and buffers at the time of the
    call: tensors refilled in place between calls give what a fresh layer gives for fresh copies"""
    s, m, hi, ho, x = draw(ctx, dtype=ctx.rng.choice([D, torch.float32]))
    ctx.describe(**s.brief())
    m.train(ctx.flip("train"))
    grad = ctx.flip("grad", 0.4)
    opt = torch.optim.SGD(m.parameters(), lr=0.1)
    for step in range(ctx.randint("steps", 2, 5)):
        what = ctx.rng.sample(["in_H", "out_H", "x", "parameters", "optimizer", "grid_H", "load", "mode", "nothing",
                               "data", "new-data", "new-parameters", "assign", "new-buffers", "nudge", "nudge", "row"], ctx.rng.randint(1, 3))
        with torch.no_grad():
            for w in what:
                ctx.event("refilled:" + w)
                if w == "in_H":
                    hi.copy_(L.rand_H(ctx, s.fam, len(hi)))
                elif w == "out_H":
                    ho.copy_(L.rand_H(ctx, s.fam, len(ho)))
                elif w == "x":
                    x.copy_(torch.randn(x.shape, dtype=D))
                elif w == "parameters":
                    for p in m.parameters():
                        p.copy_(torch.randn_like(p))
                elif w == "optimizer":
                    for p in m.parameters():
                        p.grad = torch.randn_like(p)
                    opt.step()
                    opt.zero_grad()
                elif w == "grid_H" and m.kernel.grid_H is not None:
                    m.kernel.grid_H.copy_(L.ref_grid(ctx, s.fam, L.rep(s.gk, 2) if s.E and s.grid is None else (
                        (int((m.kernel.grid_H[:, 0] > 0).sum()), int((m.kernel.grid_H[:, 0] < 0).sum())) if s.E else len(m.kernel.grid_H))))
                elif w == "load":
                    m.load_state_dict({k: (torch.randn_like(v) if "weight" in k or "bias" in k else v.clone()) for k, v in m.state_dict().items()})
                elif w == "data":  # written behind autograd's back (no version counter moves)
                    for p in m.parameters():
                        p.data.copy_(torch.randn_like(p))
                elif w == "new-data":
                    for p in m.parameters():
                        p.data = torch.randn_like(p)
                elif w == "new-parameters":
                    for q in (m, m.kernel):
                        for k_, p in list(q.named_parameters(recurse=False)):
                            setattr(q, k_, torch.nn.Parameter(torch.randn_like(p)))
                    opt = torch.optim.SGD(m.parameters(), lr=0.1)
                elif w == "assign":
                    m.load_state_dict({k: (torch.randn_like(v) if "weight" in k or "bias" in k else v.clone()) for k, v in m.state_dict().items()}, assign=True)
                    opt = torch.optim.SGD(m.parameters(), lr=0.1)
                elif w == "new-buffers":
                    for k_, b in list(m.kernel.named_buffers(recurse=False)):
                        setattr(m.kernel, k_, b.clone())
                elif w == "mode":
                    m.train(not m.training)
                elif w == "nudge":  # a change too small for anything but the response to notice
                    t = ctx.rng.choice([hi, ho, x, *m.parameters()])
                    at = [ctx.rng.randrange(n) for n in t.shape]
                    if s.E and (t is hi or t is ho):
                        at[-1] = ctx.rng.randrange(1, t.shape[-1])  # not the coset
                    t[tuple(at)] += ctx.rng.choice([1e-3, 1e-4, 1e-6] if s.dtype == D else [1e-2])
                elif w == "row":
                    t = ctx.rng.choice([hi, ho])
                    t[ctx.rng.randrange(len(t))] = L.rand_H(ctx, s.fam, 1)[0].to(s.dtype)
        with torch.set_grad_enabled(grad):
            y, H = L.run(ctx, m, s, x, hi, ho)
            k = L.run_kernel(ctx, m, s, hi, ho)
        fresh = L.build(s)
        # a separate layer with the same configuration, the same values, and new tensors
        if getattr(m.kernel, "sample_H_kwargs", None):  # the width belongs to the configuration
            fresh.kernel.sample_H_kwargs = copy.deepcopy(m.kernel.sample_H_kwargs)
        fresh.load_state_dict({k_: v.detach().clone() for k_, v in m.state_dict().items()})
        z, _ = L.run(ctx, fresh, s, x.clone(), hi.clone(), ho.clone())
        tol = max(z.abs().max().item(), 1e-30) * (1e-12 if s.dtype == D else 1e-5)
        ctx.close("current-values-count", y, z, tol)
        # parameters passed in from outside (ensembles, meta learning) count, and only for that call
        if ctx.rng.random() < 0.3:
            other = {k_: torch.randn_like(p) for k_, p in m.named_parameters()}
            args = (x, ho) if s.kind == "lift" else (x, hi, ho)
            fy, _ = torch.func.functional_call(m, other, args)
            fresh.load_state_dict({**fresh.state_dict(), **other})
            fz, _ = L.run(ctx, fresh, s, *((x, None, ho) if s.kind == "lift" else args))
            ctx.close("functional-call", fy, fz, max(fz.abs().max().item(), 1e-30) * (1e-12 if s.dtype == D else 1e-5))
            # weights computed from other parameters (weight normalisation and the like)
            name = ctx.rng.choice([k_ for k_, _ in m.kernel.named_parameters()])
            reparam = copy.deepcopy(m)
            torch.nn.utils.parametrize.register_parametrization(reparam.kernel, name, Scaled())
            py, _ = L.run(ctx, reparam, s, x, hi, ho)
            fresh.load_state_dict({k_: v.detach() * (3 if k_ == "kernel." + name else 1) for k_, v in m.state_dict().items()})
            pz, _ = L.run(ctx, fresh, s, x, hi, ho)
            ctx.close("parametrised-weights", py, pz, max(pz.abs().max().item(), 1e-30) * (1e-12 if s.dtype == D else 1e-5))
            fresh.load_state_dict({k_: v.detach().clone() for k_, v in m.state_dict().items()})
        ctx.same("returned-grid-current", H, ho)
        kz = L.run_kernel(ctx, fresh, s, hi.clone(), ho.clone())
        for a, b in zip(k if isinstance(k, tuple) else [k], kz if isinstance(kz, tuple) else [kz]):
            ctx.close("current-values-count", a, b, max(b.abs().max().item(), 1e-30) * (1e-12 if s.dtype == D else 1e-5))


def configuration(ctx):
    """layers of one class with different options do not influence one another"""
    fam, kind = ctx.choice("fam", list(L.FAM)), ctx.choice("kind", L.KINDS)
    layers = []
    for _ in range(3):
        s, m, hi, ho, x = draw(ctx, fam=fam, kind=kind)
        y = L.run(ctx, m, s, x, hi, ho)[0].detach().clone()
        layers.append((s, m, hi, ho, x, y))
    order = [0, 1, 2, 0, 2, 1]
    ctx.rng.shuffle(order)
    for i in order:
        s, m, hi, ho, x, y = layers[i]
        ctx.equal("options-do-not-leak", L.run(ctx, m, s, x, hi, ho)[0].detach(), y)


def threads(ctx):
    """concurrent forward and backward passes give the sequential results"""
    T = ctx.randint("threads", 2, 6)
    jobs = []
    shared = ctx.flip("one-module-for-all")
    base = draw(ctx)
    for i in range(T):
        if shared:
            s, m = base[0], base[1]
            hi, ho = (L.rand_H(ctx, s.fam, ctx.size(1, 4)).to(s.dtype) for _ in range(2))
            x = L.features(ctx, s, 1, L.spatial(ctx, s, lo=2), len(hi))
        else:
            s, m, hi, ho, x = draw(ctx)
        jobs.append((s, m, hi, ho, x))

    def f(j, grad):
        s, m, hi, ho, x = j
        x = x.clone().requires_grad_()
        y, H = m(x, ho) if s.kind == "lift" else m(x, hi, ho)
        if grad:
            return y.detach(), torch.autograd.grad(y.sin().sum(), [x])[0]
        return y.detach(), H

    want = [f(j, True) for j in jobs]
    got = [None] * T
    err = []
    barrier = threading.Barrier(T)
    reps = ctx.randint("reps", 1, 4)

    def work(i):
        try:
            barrier.wait()
            for _ in range(reps):
                got[i] = f(jobs[i], True)
                if ctx.prop and i % 2:
                    so3.uniform_grid(1 + i, "quat").mul_(0)
        except Exception as e:  # noqa: BLE001
            err.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(T)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    ctx.check("threads-no-exception", not err, str(err))
    for (s, *_), w, g in zip(jobs, want, got):
        for a, b in zip(g, w):
            ctx.close("threads-agree-with-sequential", a, b, 1e-12 * max(1.0, b.abs().max().item()))
    ctx.event("concurrent-passes", T * reps)


def autograd_modes(ctx):
    """grad mode, requires_grad, train/eval and repeated backward do not change the response"""
    s, m, hi, ho, x = draw(ctx)
    ctx.describe(**s.brief())
    rng = torch.get_rng_state()
    y = L.run(ctx, m, s, x, hi, ho)[0].detach()
    ctx.same("leaves-the-random-state-alone", torch.get_rng_state(), rng)
    with torch.no_grad():
        ctx.equal("no-grad", L.run(ctx, m, s, x, hi, ho)[0], y)
    with torch.inference_mode():
        ctx.equal("inference-mode", L.run(ctx, m, s, x, hi, ho)[0].clone(), y)
    m.eval()
    ctx.equal("eval", L.run(ctx, m, s, x, hi, ho)[0].detach(), y)
    m.train()
    g = []
    for _ in range(2):
        m.zero_grad()
        z, _ = L.run(ctx, m, s, x, hi, ho)
        ctx.equal("train", z.detach(), y)
        z.square().sum().backward()
        g.append([p.grad.clone() for p in m.parameters()])
    for a, b in zip(*g):
        ctx.close("backward-is-repeatable", a, b, 1e-12 * max(1.0, b.abs().max().item()))


def plain(out):
    return [t.detach().clone() for t in torch.utils._pytree.tree_flatten(out)[0] if isinstance(t, torch.Tensor)]


def operations(ctx, dt):
    """name -> (callable, arguments): functions, modules and subgroup kernels"""
    r = ctx.rng
    ops = {}
    table = FUNCTIONS(r, dt)
    for name in r.sample(list(table), 10):
        ops[name] = (table[name][0], table[name][1:])
    n, C = r.choice([2, 3]), r.randint(1, 3)
    table = MODULES(r, n, C)
    for name in r.sample(list(table), 4):
        m = getattr(gnn, name)(*table[name][0], **table[name][1]).to(dt).train(r.random() < 0.5)
        x = torch.randn(2, C, r.randint(1, 4), *(4,) * n, dtype=dt)
        stateful = m.training and any("running" in k for k, _ in m.named_buffers())
        ops[name] = ((lambda x, H, m=m: copy.deepcopy(m)(x, H)) if stateful else m, (x, torch.randn(x.shape[2], 2, dtype=dt)))
    k = GSubgroupKernelSO3(2, 2, r.choice([2, 4, 6]), sampling_mode=r.choice(["rbf", "nearest"])).to(dt)
    ops["subgroup-kernel"] = (k, tuple(so3.random_matrix(r.randint(1, 3)).to(dt) for _ in range(2)))
    return ops


def ambience(ctx):
    """functions and modules give the same values in every gradient mode, default dtype and thread"""
    dt = ctx.choice("dtype", [D, torch.float32])
    ops = operations(ctx, dt)
    want = {}

    def call(name, args=None):
        f, a = ops[name]
        torch.manual_seed(7)
        return f(*(t.clone() for t in (a if args is None else args)))

    for name in ops:
        want[name] = plain(call(name))

    def judge(monitor, name, got):
        ctx.event(monitor)
        w = want[name]
        ctx.check("same-everywhere", len(got) == len(w), f"{name} {monitor}: {len(got)} results")
        for a, b in zip(got, w):
            ctx.check("same-everywhere", a.dtype == b.dtype and a.shape == b.shape, f"{name} {monitor}: {a.dtype} {tuple(a.shape)} instead of {b.dtype} {tuple(b.shape)}")
            d = (a.nan_to_num(1e30) - b.nan_to_num(1e30)).abs().max().item() if a.numel() and a.dtype.is_floating_point else 0.0
            ctx.check("same-everywhere", d <= 1e-12 * max(1.0, b.nan_to_num(1.0).abs().max().item() if b.numel() else 1.0) and (a.dtype.is_floating_point or torch.equal(a, b)),
                      f"{name} {monitor}: differs by {d:.3e}")

    for name in ops:
        for mode in ctx.rng.sample(["again", "requires-grad", "no-grad", "inference", "inference-tensors", "default-dtype", "thread"], 4):
            if name == "repulsion.repulse" and mode != "again" and mode != "thread":
                continue
            if mode == "requires-grad":
                got = call(name, [t.clone().requires_grad_() for t in ops[name][1]])
            elif mode == "no-grad":
                with torch.no_grad():
                    got = call(name)
            elif mode.startswith("inference"):
                with torch.inference_mode():
                    got = call(name, [t.clone() for t in ops[name][1]] if "-" in mode else None)
                    judge("mode:" + mode, name, plain(got))
                continue
            elif mode == "default-dtype":
                torch.set_default_dtype(D if dt == torch.float32 else torch.float32 if ctx.rng.random() < 0.5 else D)
                try:
                    got = call(name)
                finally:
                    torch.set_default_dtype(torch.float32)
            elif mode == "thread":
                box = []
                t = threading.Thread(target=lambda: box.append(call(name)))
                t.start()
                t.join()
                ctx.check("threads-no-exception", box, name)
                got = box[0]
            else:
                got = call(name)
            judge("mode:" + mode, name, plain(got))
    # all at once, in different orders
    names = [n for n in ops if n != "repulsion.repulse"]
    T = ctx.rng.randint(2, 5)
    orders = [ctx.rng.sample(names, len(names)) for _ in range(T)]
    out = [[] for _ in range(T)]
    err = []
    barrier = threading.Barrier(T)

    def work(i):
        try:
            barrier.wait()
            for n in orders[i]:
                f, a = ops[n]
                out[i].append((n, f(*a)))
        except Exception as e:  # noqa: BLE001
            err.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(T)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    ctx.check("threads-no-exception", not err, str(err))
    for o in out:
        for n, got in o:
            judge("mode:concurrent", n, plain(got))


def settings():
    """torch's process-wide settings, and the other random states a library could touch"""
    b = torch.backends
    out = {
        "default-dtype": torch.get_default_dtype(), "default-device": torch.get_default_device(), "grad": torch.is_grad_enabled(),
        "inference": torch.is_inference_mode_enabled(), "matmul-precision": torch.get_float32_matmul_precision(),
        "threads": torch.get_num_threads(), "deterministic": torch.are_deterministic_algorithms_enabled(),
        "deterministic-warn": torch.is_deterministic_algorithms_warn_only_enabled(), "anomaly": torch.is_anomaly_enabled(),
        "anomaly-nan": torch.is_anomaly_check_nan_enabled(), "mkldnn": b.mkldnn.enabled, "cudnn": b.cudnn.enabled,
        "cudnn-benchmark": b.cudnn.benchmark, "cudnn-deterministic": b.cudnn.deterministic, "tf32": b.cudnn.allow_tf32,
        "autocast": torch.is_autocast_enabled("cpu"), "autocast-dtype": torch.get_autocast_dtype("cpu"),
        "multithreading": torch.autograd.is_multithreading_enabled(), "warn-always": torch.is_warn_always_enabled(),
        "fill": torch.utils.deterministic.fill_uninitialized_memory, "hooks": len(torch.nn.modules.module._global_forward_hooks),
        "pre-hooks": len(torch.nn.modules.module._global_forward_pre_hooks), "printing": str(sorted(vars(torch._tensor_str.PRINT_OPTS).items(), key=str)), "einsum": (b.opt_einsum.enabled, b.opt_einsum.strategy),
        "python-random": hash(random.getstate()), "recursion": sys.getrecursionlimit(), "switch": sys.getswitchinterval(),
        "warning-filters": str(warnings.filters), "environment": hash(frozenset(os.environ.items())), "cwd": os.getcwd(), "profile": sys.getprofile(), "gc": gc.isenabled(),
    }
    if "numpy" in sys.modules:
        st = sys.modules["numpy"].random.get_state()
        out["numpy-random"] = (st[0], hash(st[1].tobytes()), *st[2:])
    return out


def quiet_operations(ctx):
    """the public operations that are not documented as random"""
    r = ctx.rng
    n, m = r.randint(1, 24), r.randint(1, 6)
    ops = {
        "so3.uniform_grid": lambda: so3.uniform_grid(n, r.choice(["quat", "matrix"])),
        "o3.uniform_grid": lambda: o3.uniform_grid((n, m)), "so2.uniform_grid": lambda: so2.uniform_grid(n),
        "o2.uniform_grid": lambda: o2.uniform_grid((n, m)), "cyclic": lambda: so3.cyclic(n, r.choice("xyzXYZ")),
        "named": lambda: [f() for f in (so3.identity, so3.klein_group, so3.tetrahedral, so3.octahedral, so3.icosahedral)],
        "grids": lambda: (gF.create_grid_R2(m), gF.create_grid_R3(m), gF.create_spherical_mask_R2(m), gF.create_spherical_mask_R3(m)),
        "zero-steps": lambda: repulsion.repulse(torch.ones(3, 2), steps=0, show_pbar=False),
    }
    for name in GROUPS:
        G = GROUPS[name]
        a, b = G.rand(ctx, n, "mixed"), G.rand(ctx, n, "mixed")
        ops["algebra:" + name] = lambda G=G, a=a, b=b: (G.mul(a, b), G.inv(a), G.pair(a, b) if G.pair else None)
    q, M, e = so3.random_quat(n), so3.random_matrix(n), so3.random_euler(n)
    th, h2, h3 = so2.random_grid(n), o2.random_grid(n), o3.random_grid(n)
    p = torch.randn(n, 3)
    ops["conversions"] = lambda: (so3.quat_to_matrix(q), so3.matrix_to_quat(M), so3.euler_to_quat(e), so3.matrix_to_euler(M, no_warn=True),
                                  so3.quat_to_euler(q), so3.so3_log(M), so2.angle_to_matrix(th), so2.angle_to_euclid(th))
    ops["distances"] = lambda: (so3.geodesic_distance(q[:, None], q), so3.nearest_neighbour_distance(M), so2.nearest_neighbour_distance(th))
    ops["sphere"] = lambda: s2.spherical_to_euler(s2.euclid_to_spherical(p))
    ops["gimbal"] = lambda: (so3.matrix_to_euler(torch.eye(3).expand(n, 3, 3), no_warn=True), so3.quat_to_euler(q))
    for mode in ("rbf", "nearest"):
        ops["so2.sample-" + mode] = lambda mode=mode: so2.grid_sample(th, torch.randn(n, 2, generator=torch.Generator()), so2.uniform_grid(n), mode)
        ops["so3.sample-" + mode] = lambda mode=mode: so3.grid_sample(M, torch.ones(n, 2), so3.uniform_grid(n, "matrix"), mode)
        ops["o2.sample-" + mode] = lambda mode=mode: o2.grid_sample(h2, torch.ones(n + m, 2), o2.uniform_grid((n, m)), (n, m), mode)
        ops["o3.sample-" + mode] = lambda mode=mode: o3.grid_sample(h3, torch.ones(n + m, 2), o3.uniform_grid((n, m)), (n, m), mode)
    x2, x3 = torch.randn(2, 3, 4, 6, 6), torch.randn(2, 3, 4, 4, 4, 4)
    H = torch.zeros(4, 1)
    for d, x in ((2, x2), (3, x3)):
        for k in ("Max", "Avg"):
            ops[f"pool{d}{k}"] = lambda d=d, k=k, x=x: (getattr(gnn, f"G{k}SpatialPool{d}d")(2)(x, H), getattr(gnn, f"GAdaptive{k}SpatialPool{d}d")(2)(x, H),
                                                        getattr(gnn, f"G{k}GroupPool")()(x, H), getattr(gnn, f"G{k}GlobalPool")()(x, H))
        ops[f"norm{d}"] = lambda d=d, x=x: (getattr(gnn, f"GBatchNorm{d}d")(3)(x, H), getattr(gnn, f"GInstanceNorm{d}d")(3)(x, H), gnn.GReLU()(x, H))
    return ops


def process_state(ctx):
    """calls leave torch's process-wide settings, chosen by the caller, and the random states as they were"""
    s, m, hi, ho, x = draw(ctx, dtype=torch.float32)
    ctx.describe(**s.brief())
    ops = quiet_operations(ctx)

    def layer():
        y, _ = L.run(ctx, m, s, x.clone().requires_grad_(), hi, ho)
        if y.requires_grad:
            y.sum().backward()

    ops = {**{k: ops[k] for k in ctx.rng.sample(list(ops), 6)}, "layer": layer, "kernel": lambda: L.run_kernel(ctx, m, s, hi, ho),
           "eval": lambda: L.run(ctx, m.eval(), s, x, hi, ho), "repr": lambda: repr(m), "state": lambda: m.load_state_dict(m.state_dict())}
    noisy = {  # documented as random, or drawing their initial values
        "build": lambda: L.construct(s), "reset": m.reset_parameters, "random": lambda: (so3.random_euler(3), o3.random_grid(2), s2.random_s2((2,))),
        "generate": lambda: so3.uniform_grid(ctx.rng.randint(25, 28), "quat", steps=2, show_pbar=False),
        "permuted": lambda: L.construct(dataclasses.replace(s, permute=True))(*((x,) if s.kind == "lift" else (x, hi)), ho),
        "sphere-grid": lambda: s2.uniform_grid_s2(4, steps=2, show_pbar=False)}
    keep = settings()
    # the caller's own choices
    chosen = ctx.rng.sample(["matmul", "anomaly", "mkldnn", "benchmark", "multithreading", "warn-always", "einsum", "no-grad", "deterministic", "printing"], 3)
    prt = dict(vars(torch._tensor_str.PRINT_OPTS))
    grad = torch.is_grad_enabled()
    try:
        for c in chosen:
            ctx.event("chosen:" + c)
            if c == "matmul":
                torch.set_float32_matmul_precision(ctx.rng.choice(["high", "medium"]))
            elif c == "anomaly":
                torch.autograd.set_detect_anomaly(True, check_nan=False)
            elif c == "mkldnn":
                torch.backends.mkldnn.set_flags(False)
            elif c == "benchmark":
                torch.backends.cudnn.benchmark = True
            elif c == "multithreading":
                torch._C._set_multithreading_enabled(False)
            elif c == "warn-always":
                torch.set_warn_always(True)
            elif c == "einsum":
                torch.backends.opt_einsum.enabled = False
            elif c == "no-grad":
                torch.set_grad_enabled(False)
            elif c == "deterministic":
                torch.use_deterministic_algorithms(True, warn_only=True)
            elif c == "printing":
                torch.set_printoptions(precision=7)
        before = settings()
        for name, f in (*ops.items(), *noisy.items()):
            rng = torch.get_rng_state()
            ctx.call("settings:" + name, f)
            after = settings()
            bad = {k: (before[k], after[k]) for k in before if after.get(k) != before[k]}
            ctx.check("settings-kept", not bad, f"{name} changed {bad}")
            if name in ops:
                ctx.check("random-state-kept", torch.equal(torch.get_rng_state(), rng), f"{name} drew random numbers")
    finally:
        torch.set_float32_matmul_precision(keep["matmul-precision"])
        torch.autograd.set_detect_anomaly(False)
        torch.backends.mkldnn.set_flags(True)
        torch.backends.cudnn.benchmark = keep["cudnn-benchmark"]
        torch._C._set_multithreading_enabled(True)
        torch.set_warn_always(keep["warn-always"])
        torch.backends.opt_einsum.enabled = keep["einsum"][0]
        torch.set_grad_enabled(grad)
        torch.use_deterministic_algorithms(False)
        vars(torch._tensor_str.PRINT_OPTS).update(prt)


FAMILIES = [
    Family("history", history, 160, 3000),
    Family("construction", construction, 120, 2000),
    Family("refilled", refilled, 160, 3000),
    Family("released", released, 40, 600),
    Family("configuration", configuration, 100, 1500),
    Family("threads", threads, 80, 1500),
    Family("ambience", ambience, 60, 1500),
    Family("process-state", process_state, 80, 1200),
    Family("autograd-modes", autograd_modes, 120, 2000),
]
