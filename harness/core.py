"""Stages of a check, the pool they run on, and how verdicts become exit codes."""
import collections, hashlib, json, os, random, sys, time, traceback
from multiprocessing import get_context

import common

_POOL = None


def pool():
    global _POOL
    if _POOL is None:
        _POOL = get_context("fork").Pool(int(os.environ.get("VERIF_JOBS", "8")), maxtasksperchild=400)
    return _POOL


def close_pool():
    global _POOL
    if _POOL is not None:
        _POOL.terminate()
        _POOL.join()
        _POOL = None


def pmap(fn, items, chunk=4):
    return list(pool().imap(fn, items, chunksize=chunk))


class Later:
    """The results of a stage whose jobs are already on the pool."""

    def __init__(self, fn, items, chunk=2):
        self.res = pool().map_async(fn, items, chunksize=chunk)

    def get(self):
        return self.res.get()


class Ctx:
    def __init__(self, prop):
        self.prop, self.seed, self.tier = prop, common.seed(), common.tier()
        self.work = common.scratch()
        self.violations, self.known = [], []
        self.cov = collections.Counter()
        self.samples, self.details, self.assumptions = [], {}, []
        self.t0 = time.time()
        self.pending = []

    def later(self, fn, items, then, chunk=2):
        """Queue jobs; `then(results)` runs when all stages are queued (flush)."""
        self.pending.append((Later(fn, items, chunk), then))

    def flush(self):
        while self.pending:
            h, then = self.pending.pop(0)
            then(h.get())

    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def violation(self, what, data):
        self.violations.append((what, data))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)


def finish(ctx, level="model_checking"):
    rd = os.path.join(common.VERIF, "out", "replay")
    os.makedirs(rd, exist_ok=True)
    code = 0
    for line in ctx.known:
        print(f"KNOWN-FINDING: property={ctx.prop} {line}")
    for i, (what, data) in enumerate(ctx.violations[:5]):
        p = os.path.join(rd, f"{ctx.prop}_{i}.json")
        with open(p, "w") as f:
            json.dump({"property": ctx.prop, "what": what, "seed": ctx.seed, "tier": ctx.tier, "data": data}, f, indent=1,
                      default=str)
        print(f"VIOLATION property={ctx.prop} replay={p}")
        print("  " + what[:600])
        code = 1
    if len(ctx.violations) > 5:
        print(f"  ... {len(ctx.violations)} violations in all")
    cov = dict(ctx.cov)
    cov.setdefault("states", 0)
    cov.setdefault("transitions", 0)
    cov.setdefault("traces_validated_against_impl", 0)
    cov["samples"] = ctx.samples
    cov["stages"] = ctx.details
    common.write_evidence(ctx.prop, level, cov, time.time() - ctx.t0, len(ctx.violations), ctx.assumptions)
    print(f"{ctx.prop}: {'VIOLATED' if code else 'held'}; states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} wall={time.time() - ctx.t0:.1f}s")
    return code


def run_tlc(ctx, module, cfg="SPECIFICATION Spec\n", env=None, must=True, **kw):
    r = common.tlc(module, cfg, ctx.work, env=env, **kw)
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    if must and not r.ok:
        raise common.MachineryError(f"TLC on {module} failed (rc {r.rc}):\n" + r.out[-3000:])
    return r


def model(ctx, module, cfg, **kw):
    """model checking of a specification on its own"""
    r = common.tlc(module, cfg, ctx.work, timeout=ctx.n(600, 6000), heap="12g", **kw)
    if not r.ok:
        raise common.MachineryError(f"{module} violates its own properties:\n" + r.out[-3000:])
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.details["model-" + module] = {"states": r.distinct, "transitions": r.generated, "wall": round(r.wall, 1)}
