"""Run TLC on a specification of /verif/spec (explore or trace-check)."""
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def _cp():
    jars = [JAR]
    for root, _, files in os.walk("/opt/veriftools/tla"):
        for f in files:
            if f.endswith(".jar") and os.path.join(root, f) != JAR:
                jars.append(os.path.join(root, f))
    return ":".join(jars)


EXPLORE = """---- MODULE {name}Explore ----
EXTENDS {name}
VARIABLES c, s, h
CONSTANTS MaxDepth, EmitAll
Cfgs == {cfgs}
INSTANCE Explore
====
"""
TRACE = """---- MODULE {name}Trace ----
EXTENDS {name}, Json, IOUtils
VARIABLES t, i, s
Traces == ndJsonDeserialize(IOEnv.VK_TRACES)
INSTANCE TraceCheck
====
"""


class TLCError(Exception):
    pass


def _run(cmd, cwd, env, timeout):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def _prep(name, suffix, text, cfg):
    d = tempfile.mkdtemp(prefix="vk_tlc_")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(f"{d}/{name}{suffix}.tla", "w") as f:
        f.write(text)
    with open(f"{d}/{name}{suffix}.cfg", "w") as f:
        f.write(cfg)
    return d


_ST = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def _cmd(mod, d, extra=(), mem="6g", workers="4"):
    return ["java", f"-Xmx{mem}", "-Xss16m", "-XX:+UseParallelGC", "-cp", _cp(), "tlc2.TLC", "-nowarning",
            "-workers", workers, "-metadir", d + "/states", "-config", mod + ".cfg", *extra, mod + ".tla"]


def unq(line):
    """A PrintT of a string: TLC prints it quoted with escapes."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def explore(name, cfgs="Cfgs0", depth=4, emit_all=True, timeout=800, simulate=None, coverage=False, seed=1, workers="4"):
    """Explore the bounded model; returns dict(states, distinct, behaviours, error)."""
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT Invariant\nACTION_CONSTRAINT Emit\n"
           f"CONSTANTS\n MaxDepth = {depth}\n EmitAll = {'TRUE' if emit_all else 'FALSE'}\nCHECK_DEADLOCK FALSE\n")
    d = _prep(name, "Explore", EXPLORE.format(name=name, cfgs=cfgs), cfg)
    try:
        extra = []
        if simulate:
            extra = ["-simulate", f"num={simulate}", "-depth", str(depth + 1), "-seed", str(seed)]
        if coverage:
            extra += ["-coverage", "1"]
        t = time.time()
        rc, out = _run(_cmd(name + "Explore", d, extra, workers=workers), d, dict(os.environ), timeout)
        beh, rest = [], []
        for line in out.splitlines():
            u = unq(line)
            if u.startswith("BEH{"):
                beh.append(u[3:])
            else:
                rest.append(line)
        m = _ST.search(out)
        res = dict(rc=rc, wall=time.time() - t, states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                   behaviours=beh, text="\n".join(rest))
        if rc not in (0,):
            res["error"] = "\n".join(rest)[-6000:]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def maximal(behs):
    """Drop duplicates and behaviours which are proper prefixes of others."""
    pref, items = set(), {}
    for b in behs:
        j = json.loads(b)
        ckey = json.dumps(j["c"], sort_keys=True)
        acts = [json.dumps(e["a"], sort_keys=True) for e in j["ev"]]
        items[(ckey, tuple(acts))] = j
        for k in range(1, len(acts)):
            pref.add((ckey, tuple(acts[:k])))
    return [v for k, v in items.items() if k not in pref]


def trace_check(name, path, n, timeout=800, workers="4"):
    """Validate the n traces in the ndjson file; returns dict(rejected={t: stuck record}, states=...)."""
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
    d = _prep(name, "Trace", TRACE.format(name=name), cfg)
    try:
        t0 = time.time()
        env = dict(os.environ, VK_TRACES=path)
        rc, out = _run(_cmd(name + "Trace", d, workers=workers), d, env, timeout)
        done, stuck, rest = set(), {}, []
        for line in out.splitlines():
            u = unq(line)
            if u.startswith("DONE{"):
                done.add(json.loads(u[4:])["t"])
            elif u.startswith("STUCK{"):
                r = json.loads(u[5:])
                if r["t"] not in stuck or stuck[r["t"]]["i"] < r["i"]:
                    stuck[r["t"]] = r
            else:
                rest.append(line)
        if rc != 0:
            raise TLCError("\n".join(rest)[-6000:])
        m = _ST.search(out)
        bad = {k: v for k, v in stuck.items() if k not in done}
        missing = [k for k in range(1, n + 1) if k not in done and k not in bad]
        if missing:
            raise TLCError(f"no verdict for traces {missing[:5]}\n" + "\n".join(rest)[-3000:])
        return dict(rejected=bad, accepted=len(done), states=int(m.group(1)) if m else 0,
                    distinct=int(m.group(2)) if m else 0, wall=time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spread(behs, lim, seed):
    """Choose lim behaviours: evenly over the configurations, those with new sequences of actions first."""
    rng = random.Random(seed)
    groups = {}
    for b in behs:
        groups.setdefault(json.dumps(b["c"], sort_keys=True), []).append(b)
    ranked = []
    for key in sorted(groups):
        g, seen, first, rest = groups[key], set(), [], []
        rng.shuffle(g)
        for b in g:
            acts = [json.dumps(e["a"], sort_keys=True) for e in b["ev"]][-8:]
            new = set(itertools.combinations(acts, 3 if len(acts) > 2 else len(acts))) - seen
            seen |= new
            (first if new else rest).append(b)
        ranked.append(first + rest)
    out = [b for row in itertools.zip_longest(*ranked) for b in row if b is not None]
    return out[:lim]
