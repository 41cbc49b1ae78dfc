"""Driver: shards the cases of one monitor over worker processes and decides."""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


def load(prop):
    d = os.path.join(ROOT, "wv", "monitors")
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(prop.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("wv.monitors." + f[:-3])
    raise SystemExit(f"no monitor for {prop}")


def known_findings(prop):
    """sig-regex -> description, for 'known:' lines only."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def schedule(mod, x64):
    kinds = []
    for k in mod.R.kinds:
        if k.once or k.few or (k.x64 is not None and k.x64 != x64):
            continue
        kinds.append(k)
    # spread weights: round robin over decreasing weights
    out = []
    w = {k.name: k.weight for k in kinds}
    while any(v > 0 for v in w.values()):
        for k in kinds:
            if w[k.name] > 0:
                out.append(k)
                w[k.name] -= 1
    return out


def setup_jax(x64):
    import warnings

    warnings.filterwarnings("ignore")
    os.environ.setdefault("TQDM_DISABLE", "1")
    import jax

    jax.config.update("jax_enable_x64", bool(x64))
    return jax


def worker_main(a):
    from wv import core

    x64 = a.worker % 2 == 0
    jax = setup_jax(x64)
    mod = load(a.prop)
    t0 = time.monotonic()
    sched = schedule(mod, x64)
    todo = []
    only = os.environ.get("WV_KIND")  # development: these kinds only
    if only:
        mod.R.kinds[:] = [k for k in mod.R.kinds if k.name in only.split(",")]
        sched = schedule(mod, x64)
    if a.worker == 0:
        todo += [(k, i) for i, k in enumerate(mod.R.kinds) if k.once]
    for k in mod.R.kinds:
        if k.few and k.x64 in (None, x64):
            todo += [(k, 10**6 + i) for i in range(8 if a.tier == "thorough" else 1)]
    counts, kinds, states, distinct = Counter(), Counter(), set(), set()
    samples, fails, errors = [], [], []
    known = known_findings(a.prop)
    evals = cases = 0
    idx = 0
    timed_out = False
    while True:
        if todo:
            k, i = todo.pop(0)
        else:
            if not sched or idx >= a.cases:
                break
            k, i = sched[idx % len(sched)], idx
            idx += 1
        if time.monotonic() - t0 > a.budget:
            timed_out = True
            break
        if a.stop and os.path.exists("stop"):
            break
        jax.config.update("jax_enable_x64", bool(x64))
        c, fs, err = core.run_case(mod, k, a.seed, a.worker, i, a.tier, x64)
        cases += 1
        evals += c.evals
        counts.update(c.counts)
        states |= c.states
        if err:
            errors.append(f"{k.name}/{i}: {err}")
        if c.nontrivial or c.evals:
            key = hashlib.md5((k.name + repr(c.desc) + repr(sorted(c.states))).encode()).hexdigest()[:16]
            if key not in distinct and c.nontrivial:
                distinct.add(key)
                kinds[k.name] += 1
            if len(samples) < 3 and c.desc and (not samples or samples[-1]["kind"] != k.name):
                samples.append({"kind": k.name, "case": repr(c.desc)[:600]})
        for sig, msg, tb in fs:
            fails.append(dict(sig=sig, msg=msg[:1500], tb=tb, kind=k.name, seed=a.seed, worker=a.worker,
                              index=i, tier=a.tier, x64=x64, case=repr(c.desc)[:3000]))
        if a.stop and any(not re.fullmatch(k[0], f["sig"]) for f in fails for k in known or [("",)]):
            open("stop", "w").close()
        if len(fails) > 200:
            break
    json.dump(dict(cases=cases, evals=evals, counts=counts, kinds=kinds, states=sorted(states),
                   distinct=sorted(distinct), samples=samples, fails=fails, errors=errors,
                   timed_out=timed_out, wall=time.monotonic() - t0), open(a.out, "w"))
    sys.stdout.flush()
    os._exit(0)


def replay(a):
    from wv import core

    r = json.load(open(a.replay))
    setup_jax(r["x64"])
    mod = load(a.prop)
    k = mod.R.by_name(r["kind"])
    c, fs, err = core.run_case(mod, k, r["seed"], r["worker"], r["index"], r["tier"], r["x64"])
    print("case:", c.desc)
    for sig, msg, tb in fs:
        print("FAIL", sig, msg)
        print(tb)
    if err:
        print("ERROR", err)
    print("reproduced" if fs else "not reproduced")
    os._exit(1 if fs else 0)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--replay")
    p.add_argument("--worker", type=int)
    p.add_argument("--cases", type=int)
    p.add_argument("--budget", type=float)
    p.add_argument("--out")
    p.add_argument("--procs", type=int, default=8)
    p.add_argument("--stop", action="store_true", help="end every worker after the first violation")
    p.add_argument("--dry", action="store_true", help="do not write evidence")
    a = p.parse_args()
    if a.replay:
        return replay(a)
    if a.worker is not None:
        return worker_main(a)

    t0 = time.time()
    mod = load(a.prop)
    quick = a.tier != "thorough"
    cases = a.cases or (mod.QUICK if quick else mod.THOROUGH)
    budget = a.budget or (240.0 if quick else 700.0)
    tmp = tempfile.mkdtemp(prefix="wv_")
    procs = []
    for w in range(a.procs):
        out = os.path.join(tmp, f"{w}.json")
        log = open(os.path.join(tmp, f"{w}.log"), "w")
        cmd = [sys.executable, "-m", "wv.run", a.prop, "--tier", a.tier, "--seed", str(a.seed), "--worker", str(w),
               "--cases", str(cases), "--budget", str(budget), "--out", out] + ["--stop"] * a.stop
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=tmp), out, log.name))
    hard = t0 + budget + 120
    res, broken = [], []
    for w, (pr, out, log) in enumerate(procs):
        try:
            pr.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
        if os.path.exists(out):
            try:
                res.append(json.load(open(out)))
                continue
            except Exception:
                pass
        broken.append((w, pr.returncode, open(log).read()[-2500:]))
    for root, dirs, files in os.walk(tmp, topdown=False):
        for f in files:
            os.unlink(os.path.join(root, f))
        for d in dirs:
            pth = os.path.join(root, d)
            os.unlink(pth) if os.path.islink(pth) else os.rmdir(pth)
    os.rmdir(tmp)

    counts, kinds, states, distinct = Counter(), Counter(), set(), set()
    samples, fails, errors = [], [], []
    for r in res:
        counts.update(r["counts"])
        kinds.update(r["kinds"])
        states |= set(r["states"])
        distinct |= set(r["distinct"])
        samples += r["samples"]
        fails += r["fails"]
        errors += r["errors"]
    known = known_findings(a.prop)
    seen_known, new = {}, {}
    for f in fails:
        hit = next((k for k in known if re.fullmatch(k[0], f["sig"])), None)
        if hit:
            seen_known[hit] = seen_known.get(hit, 0) + 1
        else:
            new.setdefault(f["sig"], []).append(f)

    cov = dict(
        evaluations=sum(r["evals"] for r in res),
        cases=sum(r["cases"] for r in res),
        distinct_nontrivial=len(distinct),
        rule=mod.RULE,
        per_kind=dict(sorted(kinds.items())),
        observed=dict(sorted(counts.items())),
        distinct_states=len(states),
        workers=len(res),
        time_capped=sum(bool(r["timed_out"]) for r in res),
        samples=samples[:10],
        known_findings_seen={k[0]: v for k, v in seen_known.items()},
    )
    ev = dict(property=a.prop, tier=a.tier if a.tier == "thorough" else "quick", seed=a.seed, level="exploration",
              coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
              violations=sum(len(v) for v in new.values()))
    if not a.dry:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w"), indent=1)
    print(f"{a.prop} tier={a.tier} seed={a.seed} cases={cov['cases']} evaluations={cov['evaluations']} "
          f"distinct={cov['distinct_nontrivial']} states={cov['distinct_states']} wall={ev['wall_s']}s")
    print("per kind:", dict(sorted(kinds.items())))
    for k, n in seen_known.items():
        print(f"KNOWN-FINDING: property={a.prop} {k[1]} [seen {n}x, sig {k[0]}]")
    if new:
        rd = os.path.join(ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (sig, fl) in enumerate(sorted(new.items())):
            f = fl[0]
            path = os.path.join(rd, f"{a.prop}_{hashlib.md5(sig.encode()).hexdigest()[:8]}.json")
            json.dump(f, open(path, "w"), indent=1)
            if n < 12:
                print(f"  [{len(fl)}x] {sig}: {f['msg'][:400]}")
                print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    missing = [k.name for k in mod.R.kinds if not kinds.get(k.name)] if not os.environ.get("WV_KIND") else []
    if broken or errors or missing:
        for w, rc, log in broken:
            print(f"worker {w} ended with {rc}:\n{log}")
        for e in errors[:5]:
            print("error:", e)
        if missing:
            print("INCONCLUSIVE: monitors never reached:", missing)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
