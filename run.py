#!/opt/venv/bin/python
"""run.py Cxx [--tier quick|thorough] [--replay FILE] [--seed N]

Exit 0: the property held on everything explored; 1: violated (VIOLATION line);
2: inconclusive (the deciding monitors were not reached often enough).
"""
import argparse
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GV_REPO", "/repo")
PY = "/opt/venv/bin/python"


def child_env(work):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO + os.pathsep + VERIF,
        PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"),
        PYTHONDONTWRITEBYTECODE="1",
        CUDA_VISIBLE_DEVICES="",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONHASHSEED="0",
        PYTHONWARNINGS="ignore",
        TQDM_DISABLE="1",
        MPLBACKEND="Agg",
        HOME=work,
        TMPDIR=work,
        GV_REPO=REPO,
    )
    return env


def load(prop):
    import gv.core as core

    core.torch_setup()
    return core, importlib.import_module("gv.checks." + prop.lower())


def shard_main(a):
    os.dup2(2, 1)
    core, mod = load(a.property)
    i, n = map(int, a.shard.split("/"))
    def save(stats):
        with open(a.out + ".new", "wb") as f:
            pickle.dump(stats.__dict__, f)
        os.replace(a.out + ".new", a.out)

    at = os.open(a.out + ".at", os.O_WRONLY | os.O_CREAT)

    def begin(family, index):  # survives a crash of the process
        os.pwrite(at, json.dumps(dict(family=family, index=index)).ljust(200).encode(), 0)

    save(core.run_shard(mod, a.tier, a.seed, i, n, a.deadline, begin, save))


def replay_main(a):
    core, mod = load(a.property)
    with open(a.replay) as f:
        r = json.load(f)
    fams = {f.name: f for f in mod.FAMILIES}
    stats = core.Stats()
    known = {f["id"]: f for f in core.load_known() if f["property"] == mod.PROPERTY}
    core.run_case(mod, fams[r["family"]], r["index"], r["seed"], stats, known, verbose=True)
    if stats.violations:
        print(json.dumps(stats.violations[0], indent=1))
        print(f"VIOLATION property={a.property} replay={a.replay}")
        return 1
    return 0


def merge(dst, src):
    for k in ("cases", "planned"):
        dst[k] += src[k]
    for k in ("events", "per_family"):
        for n, c in src[k].items():
            dst[k][n] = dst[k].get(n, 0) + c
    for n, r in src["margin"].items():
        dst["margin"][n] = max(dst["margin"].get(n, 0.0), r)
    dst["known"].update(src["known"])
    dst["descs"].update(src["descs"])
    for k in ("samples", "violations", "inconclusive"):
        dst[k] += src[k]


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGBUS}


def crash(a, at, sig, env, work):
    """a worker was killed by the code under test: run its last case alone to be sure"""
    with open(at) as f:
        case = dict(json.load(f), seed=a.seed)
    path = os.path.join(work, "crash.json")
    with open(path, "w") as f:
        json.dump(case, f)
    p = subprocess.run([PY, __file__, a.property, "--replay", path], env={**env, "GV_CHILD": "1"}, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=300)
    if p.returncode != -sig:
        return []
    return [dict(family=case["family"], index=case["index"], monitor="process-survives", message=f"the process is killed by {signal.Signals(sig).name}", detail={}, case={})]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()
    if a.shard:
        return shard_main(a)
    if os.environ.get("GV_CHILD"):
        return replay_main(a)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"

    t0 = time.time()
    work = tempfile.mkdtemp(prefix="gv-", dir="/tmp")
    try:
        env = child_env(work)
        if a.replay:
            rc = subprocess.run([PY, __file__, a.property, "--replay", os.path.abspath(a.replay)],
                                env={**env, "GV_CHILD": "1"}).returncode
            if -rc in CRASHES:
                print(f"the process is killed by {signal.Signals(-rc).name}")
                print(f"VIOLATION property={a.property} replay={a.replay}")
                return 1
            return rc
        nsh = int(os.environ.get("GV_SHARDS", "6" if a.tier == "quick" else "8"))
        deadline = t0 + float(os.environ.get("GV_BUDGET", "420" if a.tier == "quick" else "3000"))
        procs = []
        for i in range(nsh):
            out = os.path.join(work, f"s{i}.pkl")
            cmd = [PY, __file__, a.property, "--tier", a.tier, "--seed", str(a.seed), "--shard", f"{i}/{nsh}",
                   "--out", out, "--deadline", str(deadline)]
            log = open(os.path.join(work, f"s{i}.log"), "wb")
            procs.append((out, log.name, subprocess.Popen(cmd, env=env, stdout=log, stderr=log, cwd=work)))
        tot = dict(events={}, margin={}, known={}, cases=0, descs={}, samples=[], per_family={}, violations=[],
                   inconclusive=[], planned=0)
        broken = []
        for out, log, p in procs:
            try:
                p.wait(timeout=max(1.0, deadline + 300 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(out):  # (of a shard that died: what it had found)
                with open(out, "rb") as f:
                    merge(tot, pickle.load(f))
            if -p.returncode in CRASHES and os.path.exists(out + ".at"):
                tot["violations"] += crash(a, out + ".at", -p.returncode, env, work)
            if p.returncode != 0:
                with open(log, errors="replace") as f:
                    broken.append((p.returncode, f.read()[-3000:]))
        sys.path.insert(0, VERIF)
        return verdict(a, tot, broken, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def verdict(a, tot, broken, t0):
    P = a.property
    rc = 0
    meta = json.load(open(os.path.join(VERIF, "gv", "meta.json"))).get(P, {})
    # a shard that cannot even import the library: the property does not hold there
    imp = [b for b in broken if b[0] == 1 and ("Error" in b[1]) and ("/gconv/" in b[1])]
    required = dict(meta.get("required", {}))
    short = {m: (tot["events"].get(m, 0), n) for m, n in required.items() if tot["events"].get(m, 0) < n}
    viol = tot["violations"]
    if viol or imp:
        rc = 1
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{P}-{a.tier}-{a.seed}.json")
        v = viol[0] if viol else dict(family="import", index=0, monitor="import", message=imp[0][1][-1500:], case={})
        with open(path, "w") as f:
            json.dump(dict(property=P, seed=a.seed, tier=a.tier, **v), f, indent=1)
        for x in viol[:5]:
            print(f"  {x['family']}#{x['index']} {x['monitor']}: {x['message'][:600]}")
            print(f"     case {json.dumps(x['case'])[:600]}")
        if not viol:
            print(v["message"])
        print(f"VIOLATION property={P} replay={path}")
    elif broken or short or tot["inconclusive"] or tot["cases"] < tot["planned"] * 0.5 or not tot["cases"]:
        rc = 2
        for b in broken:
            print("shard failed", b[0], b[1])
        print(f"INCONCLUSIVE property={P} short={short} inconclusive={tot['inconclusive'][:3]} "
              f"cases={tot['cases']}/{tot['planned']}")
    for k, d in sorted(tot["known"].items()):
        print(f"KNOWN-FINDING: property={P} {k}: {d}")
    seen, samples = {}, []
    for s in tot["samples"]:
        seen[s["family"]] = seen.get(s["family"], 0) + 1
        if seen[s["family"]] <= 2:
            samples.append(s)
    ev = dict(
        property=P, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=tot["cases"], distinct_nontrivial=len(tot["descs"]), rule=meta.get("rule", ""),
            samples=samples[:40], families=tot["per_family"],
            monitor_events={k: v for k, v in sorted(tot["events"].items())},
            worst_error_over_tolerance={k: round(v, 6) for k, v in sorted(tot["margin"].items())},
            planned=tot["planned"], known_findings=tot["known"],
        ),
        assumptions=meta.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{P}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    n_ev = sum(v for k, v in tot["events"].items())
    worst = max(tot["margin"].items(), key=lambda t: t[1], default=("-", 0))
    print(f"{P} {a.tier} seed={a.seed}: rc={rc} {tot['cases']}/{tot['planned']} cases, {len(tot['descs'])} distinct, "
          f"{n_ev} monitor events, worst margin {worst[0]}={worst[1]:.3f}, {time.time()-t0:.1f}s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
