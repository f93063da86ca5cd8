"""Shared plumbing of the checks: environment, TLC runs, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def scratch():
    base = os.path.join(VERIF, "out", "tmp")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix="run_", dir=base)


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.fails = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"FAIL ') or line.startswith('"STAT '):
                try:
                    txt = json.loads(line)
                except ValueError:
                    continue
                if txt.startswith("FAIL "):
                    self.fails.append(json.loads(txt[5:]))
        self.stats = {}
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"STAT '):
                d = json.loads(json.loads(line)[5:])
                for k, v in d.items():
                    self.stats[k] = self.stats.get(k, 0) + v

    @property
    def ok(self):
        return self.rc == 0 and "Model checking completed. No error has been found" in self.out


def tlc(module, cfg, workdir, env=None, workers=8, timeout=800, heap="6g", extra=(), java=()):
    """Run TLC on spec/<module>.tla with the given cfg text."""
    cfgp = os.path.join(workdir, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    meta = os.path.join(workdir, "meta_" + module)
    cmd = ["java", "-Djava.io.tmpdir=" + workdir, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
           "-DTLA-Library=" + SPEC, *java, "-cp", TLA_JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
           "-config", cfgp, *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout.decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        rc = 124
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(out, rc, time.time() - t)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(obj, f)
    return path


def write_evidence(prop, level, coverage, wall, violations, assumptions=()):
    ev = {"property": prop, "tier": tier(), "seed": seed(), "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        json.dump(ev, f, indent=1)
    return ev
