"""Runs behaviours in the real code.  worker.py replay ADAPTER IN OUT | record ADAPTER SEED LO HI TIER OUT"""
import faulthandler
import importlib
import json
import os
import random
import signal
import sys
import traceback
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "adapters"))
warnings.filterwarnings("ignore")


class StepTimeout(Exception):
    """A single step took too long."""


def _alarm(*_):
    raise StepTimeout()


def exc_obs(e):
    return {"exc": type(e).__name__ + ": " + str(e)[:200]}


def load(name):
    return importlib.import_module(name).Adapter


def seed_all(x):
    import numpy
    import torch

    torch.manual_seed(x)
    numpy.random.seed(x % 2**32)
    random.seed(x)


LIMIT = int(os.environ.get("VK_STEP_LIMIT", "60"))


def guarded(f, *args):
    """(value, exception observation or None)"""
    signal.alarm(LIMIT)
    try:
        return f(*args), None
    except BaseException as e:  # pylint: disable=broad-except
        if isinstance(e, KeyboardInterrupt):
            raise
        o = exc_obs(e)
        o["tb"] = traceback.format_exc()[-1500:]
        return None, o
    finally:
        signal.alarm(0)


def replay_one(cls, b):
    """First divergence of the real code from behaviour b, or None."""
    seed_all(1)
    ad, e = guarded(cls, b["c"])
    if e:
        return dict(i=0, want=b["o0"], got=e)
    got, e = guarded(ad.obs)
    if e or got != b["o0"]:
        return dict(i=0, want=b["o0"], got=e or got)
    for i, ev in enumerate(b["ev"]):
        def both(a):
            ad.step(a)
            return ad.obs()

        got, e = guarded(both, ev["a"])
        if e or got != ev["o"]:
            return dict(i=i + 1, want=ev["o"], got=e or got)
    return None


def main():
    faulthandler.enable()
    signal.signal(signal.SIGALRM, _alarm)
    mode = sys.argv[1]
    cls = load(sys.argv[2])
    if mode == "replay":
        with open(sys.argv[3]) as f, open(sys.argv[4], "w") as out:
            for k, line in enumerate(f):
                out.write(json.dumps(dict(k=k)) + "\n")
                out.flush()
                r = replay_one(cls, json.loads(line))
                out.write(json.dumps(dict(k=k, r=r, ok=r is None)) + "\n")
        return
    if mode == "record":
        seed, lo, hi, tier, path = int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], sys.argv[7]
        with open(path, "w") as out:
            for k in range(lo, hi):
                rng = random.Random(f"{sys.argv[2]}-{seed}-{k}")
                seed_all(seed * 1000003 + k)
                cfg = cls.random_cfg(rng, tier)
                out.write(json.dumps(dict(start=k, c=cfg)) + "\n")
                out.flush()
                rec = dict(c=cfg, o0=None, ev=[])
                ad, e = guarded(cls, cfg)
                if e is None:
                    rec["o0"], e = guarded(ad.obs)
                if e:
                    rec["o0"] = e
                else:
                    n = cls.random_len(rng, tier) if hasattr(cls, "random_len") else rng.randint(4, 14)
                    for _ in range(n):
                        a, e = guarded(ad.random_act, rng)
                        if e:
                            # the trace so far is validated; without a violation the check fails
                            rec["fail"] = "random_act failed: " + json.dumps(e)
                            break
                        if a is None:
                            break
                        out.write(json.dumps(dict(act=a)) + "\n")
                        out.flush()

                        def both(a=a):
                            x = ad.step(a)
                            return x if isinstance(x, dict) else a, ad.obs()

                        r, e = guarded(both)
                        if e:
                            rec["ev"].append(dict(a=a, o=e))
                            break
                        rec["ev"].append(dict(a=r[0], o=r[1]))
                out.write(json.dumps(dict(rec=rec)) + "\n")


if __name__ == "__main__":
    main()
