"""Check runner: vk.py PROPERTY [quick|thorough]  |  vk.py replay FILE  |  vk.py setup"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402
import tlc  # noqa: E402
from props import PROPS, SUITES  # noqa: E402

NPROC = int(os.environ.get("VK_PROC", "8"))


def log(*a):
    print(*a, flush=True)


def worker_env(src):
    env = dict(os.environ)
    env.update(
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        VIRTUAL_ENV="/opt/venv", PYTHONPATH=src, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", LC_ALL="C.UTF-8",
    )
    lib = "/opt/vp/plugins/libseedclock.so"
    if os.path.isfile(lib):
        env["LD_PRELOAD"] = lib
    return env


def run_worker(env, args, timeout):
    try:
        p = subprocess.run(["/opt/venv/bin/python", HERE + "/worker.py", *args], env=env, cwd="/tmp",
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -99, "worker timeout " + str(e)[:300]


class InternalError(Exception):
    """The check itself failed: no verdict."""


def replay(env, adapter, behs, work, tag, timeout, nproc):
    """Replay behaviours in the code; list of (behaviour, divergence)."""
    if not behs:
        return []
    nproc = max(1, min(nproc, (len(behs) + 9) // 10))
    chunks = [behs[i::nproc] for i in range(nproc)]

    def one(ix):
        inp, out = f"{work}/{tag}-{ix}.in", f"{work}/{tag}-{ix}.out"
        with open(inp, "w") as f:
            for b in chunks[ix]:
                f.write(json.dumps(b) + "\n")
        rc, txt = run_worker(env, ["replay", adapter, inp, out], timeout)
        res, last = {}, None
        if os.path.isfile(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                last = r["k"]
                if "ok" in r:
                    res[r["k"]] = r
        bad = [(chunks[ix][k], r["r"]) for k, r in res.items() if not r["ok"]]
        if len(res) < len(chunks[ix]):
            if last is None or rc == -99 or rc > 0:
                raise InternalError(f"replay worker ended with {rc}:\n{txt[-3000:]}")
            bad.append((chunks[ix][last], dict(i=-1, want="no crash", got={"exc": f"process ended {rc}: {txt[-1500:]}"})))
        return bad

    with ThreadPoolExecutor(nproc) as ex:
        return [x for r in ex.map(one, range(nproc)) for x in r]


def record(env, adapter, seed, n, tier, work, tag, timeout, nproc):
    """Record n random executions; returns (list of traces, list of crashes)."""
    nproc = max(1, min(nproc, (n + 9) // 10))
    step = (n + nproc - 1) // nproc

    def one(ix):
        lo, hi = ix * step, min(n, (ix + 1) * step)
        if lo >= hi:
            return [], []
        out = f"{work}/{tag}-{ix}.rec"
        rc, txt = run_worker(env, ["record", adapter, str(seed), str(lo), str(hi), tier, out], timeout)
        recs, cur = [], None
        if os.path.isfile(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "start" in r:
                    cur = dict(c=r["c"], acts=[])
                elif "act" in r:
                    cur["acts"].append(r["act"])
                elif "rec" in r:
                    recs.append(r["rec"])
                    cur = None
        if rc == 0:
            return recs, []
        if rc == -99 or rc > 0 or cur is None:
            raise InternalError(f"record worker ended with {rc}:\n{txt[-3000:]}")
        return recs, [dict(c=cur["c"], acts=cur["acts"], got=f"process ended {rc}: {txt[-1500:]}")]

    recs, crashes = [], []
    with ThreadPoolExecutor(nproc) as ex:
        for a, b in ex.map(one, range(nproc)):
            recs += a
            crashes += b
    return recs, crashes


def corrupt(rec):
    """A copy of a trace with one observed integer changed (must be rejected)."""
    rec = json.loads(json.dumps(rec))

    def bump(x):
        if isinstance(x, bool):
            return (not x), True
        if isinstance(x, int):
            return x + 1, True
        if isinstance(x, list):
            for i in range(len(x) - 1, -1, -1):
                x[i], done = bump(x[i])
                if done:
                    return x, True
        if isinstance(x, dict):
            for k in sorted(x):
                x[k], done = bump(x[k])
                if done:
                    return x, True
        return x, False

    for ev in reversed(rec["ev"]):
        if "exc" in ev["o"]:
            continue
        _, done = bump(ev["o"])
        if done:
            return rec
    return None


def validate(spec, recs, path, left, workers, budget):
    """Trace validation; traces TLC cannot evaluate are separated from the others.
    Returns (distinct, states, {number of the trace: stuck}, first error or None)."""
    def run(part):
        with open(path, "w") as f:
            for k in part:
                f.write(json.dumps(recs[k]) + "\n")
        return tlc.trace_check(spec, path, len(part), left(), workers=workers)

    todo, rej, dist, states, err = [list(range(len(recs)))], {}, 0, 0, None
    while todo:
        part = todo.pop(0)
        try:
            tr = run(part)
        except tlc.TLCError as e:
            err = err or e
            budget[0] -= 1
            if len(part) > 1 and budget[0] > 0:
                todo += [part[:len(part) // 2], part[len(part) // 2:]]
            continue
        dist, states = dist + tr["distinct"], states + tr["states"]
        for t, st in tr["rejected"].items():
            rej[part[t - 1]] = st
        if err and rej:
            break
    return dist, states, rej, err


def run_suite(pid, name, tier, seed, env, work, nproc, deadline, viols):
    """Explore + replay + record + validate one specification; appends to viols."""
    su = SUITES[name]
    par = dict(su["quick"])
    if tier == "thorough":
        par.update(su.get("thorough", {}))
    cov = dict(states=0, transitions=0, replayed=0, recorded=0, samples=[], notes=[])
    spec, adapter = su["spec"], su["adapter"]
    left = lambda: max(30, deadline - time.time())
    t0 = time.time()
    clock = lambda what: log(f"  [{name}] {what} at {time.time() - t0:.1f} s")
    runs = par.get("explore", [])
    for rno, ex in enumerate(runs):
        r = tlc.explore(spec, ex.get("cfgs", "Cfgs0"), ex["depth"], ex.get("all", True), left(),
                        ex.get("simulate"), seed=seed, workers=str(max(1, min(4, nproc))))
        if "error" in r:
            raise InternalError(f"TLC {spec}: {r['error']}")
        behs = tlc.maximal(r["behaviours"])
        clock(f"explored {r['distinct']} states, {len(behs)} behaviours")
        cov["states"] += r["distinct"]
        cov["transitions"] += r["states"]
        if not behs:
            raise InternalError(f"TLC {spec}: no behaviours")
        lim = ex.get("limit")
        if lim and len(behs) > lim:
            behs = tlc.spread(behs, lim, seed)
            cov["notes"].append(f"{spec}/{ex.get('cfgs', 'Cfgs0')}: replayed {lim} behaviours (all configurations, most sequences of actions)")
        bad = replay(env, adapter, behs, work, f"{name}-b{rno}", left(), nproc)
        cov["replayed"] += len(behs)
        clock(f"replayed {len(behs)}, {len(bad)} diverge")
        cov["samples"].append(dict(spec=spec, kind="replayed", behaviour=json.dumps(behs[len(behs) // 2])[:900]))
        for b, d in bad[:5]:
            viols.append(dict(suite=name, spec=spec, adapter=adapter, kind="replay", behaviour=b, divergence=d))
        if len(bad) > 5:
            cov["notes"].append(f"{len(bad)} diverging behaviours, 5 kept")
    n = par.get("traces", 0)
    if n:
        recs, crashes = record(env, adapter, seed, n, tier, work, name, left(), nproc)
        clock(f"recorded {len(recs)}")
        for cr in crashes:
            viols.append(dict(suite=name, spec=spec, adapter=adapter, kind="crash", **cr))
        excs, good, failed = [], [], None
        for r in recs:
            f = r.pop("fail", None)
            failed = failed or f
            (excs if "exc" in r["o0"] or any("exc" in e["o"] for e in r["ev"]) else good).append(r)
        for r in excs[:5]:
            got = r["o0"] if "exc" in r["o0"] else r["ev"][-1]["o"]
            viols.append(dict(suite=name, spec=spec, adapter=adapter, kind="exception", trace=r, got=got))
        cov["recorded"] += len(good)
        if good:
            probe = None
            for g in good:
                probe = corrupt(g)
                if probe:
                    break
            path = f"{work}/{name}.traces"
            dist, states, rejected, err = validate(spec, good + ([probe] if probe else []), path, left,
                                                   str(max(1, min(4, nproc))), [14])
            clock(f"validated {len(good)}")
            cov["states"] += dist
            cov["transitions"] += states
            if probe and len(good) not in rejected and not err:
                raise InternalError(f"{spec}: a corrupted trace was accepted: {json.dumps(probe)[:2000]}")
            for t, st in sorted(rejected.items())[:6]:
                if probe and t == len(good):
                    continue
                viols.append(dict(suite=name, spec=spec, adapter=adapter, kind="trace", trace=good[t],
                                  stuck_at=st["i"], want=st["want"],
                                  got=good[t]["o0"] if st["i"] == 0 else good[t]["ev"][st["i"] - 1]))
            if err and not viols:
                raise err
            g = good[len(good) // 2]
            cov["samples"].append(dict(spec=spec, kind="recorded", trace=json.dumps(g)[:900]))
            ops = {}
            for r in good:
                for e in r["ev"]:
                    ops[e["a"].get("op", "?")] = ops.get(e["a"].get("op", "?"), 0) + 1
            cov["notes"].append(f"{spec} recorded operations: {ops}")
        elif not crashes and not excs and not failed:
            raise InternalError(f"{name}: nothing recorded")
        if failed and not viols:
            raise InternalError(f"{name}: {failed}")
    return cov


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    try:
        src, tmp = build.ensure(log)
    except RuntimeError as e:
        log("BUILD FAILED", e)
        return 2
    env = worker_env(src)
    work = tempfile.mkdtemp(prefix="vk_work_")
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, behaviours_replayed=0, traces_recorded=0,
               samples=[], notes=[])
    viols = []
    try:
        suites = prop["suites"]
        par = min(len(suites), 3)
        nproc = max(2, NPROC // par)
        with ThreadPoolExecutor(par) as ex:
            futs = [ex.submit(run_suite, pid, s, tier, seed, env, work, nproc, deadline, viols) for s in suites]
            broken = None
            for f in futs:
                try:
                    c = f.result()
                except (InternalError, tlc.TLCError, subprocess.TimeoutExpired) as e:
                    broken = e
                    continue
                cov["states"] += c["states"]
                cov["transitions"] += c["transitions"]
                cov["behaviours_replayed"] += c["replayed"]
                cov["traces_recorded"] += c["recorded"]
                cov["samples"] += c["samples"]
                cov["notes"] += c["notes"]
        if broken is not None and not viols:
            raise broken
        cov["traces_validated_against_impl"] = cov["behaviours_replayed"] + cov["traces_recorded"]
        known = []
        with open(VERIF + "/known_findings.json") as f:
            for k in json.load(f)["findings"]:
                if k["property"] == pid:
                    known.append(k)
        fresh = []
        hit = {}
        for v in viols:
            txt = json.dumps(v, sort_keys=True)
            for k in known:
                if k["match"] in txt:
                    hit[k["id"]] = k
                    break
            else:
                fresh.append(v)
        for k in hit.values():
            log(f"KNOWN-FINDING: property={pid} {k['what']}")
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        for old in os.listdir(VERIF + "/evidence"):
            if old.startswith(f"replay-{pid}-"):
                os.remove(f"{VERIF}/evidence/{old}")
        for i, v in enumerate(fresh):
            path = f"{VERIF}/evidence/replay-{pid}-{i}.json"
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            log(f"VIOLATION property={pid} replay={path}")
            log("  " + json.dumps({k: v[k] for k in v if k not in ("behaviour", "trace")})[:700])
        ev = dict(property=pid, tier=tier, seed=seed, level=prop.get("level", "model_checking"), coverage=cov,
                  assumptions=prop.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
        with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{pid} {tier}: {cov['states']} states, {cov['behaviours_replayed']} behaviours replayed, "
            f"{cov['traces_recorded']} traces validated, {len(fresh)} violations, {ev['wall_s']} s")
        return 1 if fresh else 0
    except (InternalError, tlc.TLCError, subprocess.TimeoutExpired) as e:
        log("CHECK ERROR", e)
        if any(viols):
            for i, v in enumerate(viols):
                log("pending", json.dumps(v)[:800])
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def rerun(path):
    """Replay a violation file in the current code."""
    with open(path) as f:
        v = json.load(f)
    src, tmp = build.ensure(log)
    env = worker_env(src)
    work = tempfile.mkdtemp(prefix="vk_work_")
    b = v.get("behaviour")
    if not b:
        tr = v.get("trace") or dict(c=v["c"], o0={}, ev=[dict(a=a, o={}) for a in v["acts"]])
        b = tr
    with open(work + "/in", "w") as f:
        f.write(json.dumps(b) + "\n")
    print(run_worker(env, ["replay", v["adapter"], work + "/in", work + "/out"], 600)[1])
    print(open(work + "/out").read())
    shutil.rmtree(work)
    if tmp:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        print(build.ensure(log))
        sys.exit(0)
    if sys.argv[1] == "replay":
        rerun(sys.argv[2])
        sys.exit(0)
    sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
