"""Try planted bugs in scratch copies:  python3 tools/bugs.py [--tests] [--checks P01,P02] ID ...   (default: all of seeded/)
Applies seeded/ID/patch.diff to a copy of /repo's HEAD, runs demo.sh there and on a clean copy, optionally the
repository's tests, and the check of the bug's property (and the ones given)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def copy(name):
    d = tempfile.mkdtemp(prefix="bug_" + name + "_", dir="/tmp")
    subprocess.run(f"cp -a /repo {d}/repo && cd {d}/repo && git checkout -q -- .", shell=True, check=True)
    return d + "/repo"


def tests(r):
    out = os.path.dirname(r) + "/out.json"
    t = open("/opt/vp/test.sh").read()
    t = re.sub(r'/repo\b', r, t).replace("PYTHONHASHSEED=0", f"PYTHONHASHSEED=0 PYTHONPATH={r}")
    p = os.path.dirname(r) + "/test.sh"
    open(p, "w").write(t)
    sh(f"bash {p} {out}", r, 1200)
    try:
        got = set(json.load(open(out))["passed"])
    except Exception:
        return ["no result"]
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)


def one(b, do_tests, extra):
    d = f"{V}/seeded/{b}"
    meta = json.load(open(d + "/meta.json"))
    r = copy(b)
    out = [b, meta["property"]]
    try:
        rc0, o0 = sh(f"bash {d}/demo.sh", r, 300)
        out.append("demo-clean " + ("ok" if rc0 == 0 else f"FAIL {rc0} {o0[-300:]}"))
        rc, o = sh(f"git apply --check {d}/patch.diff && git apply {d}/patch.diff", r)
        if rc:
            return out + ["NO APPLY " + o]
        rc1, o1 = sh(f"bash {d}/demo.sh", r, 300)
        out.append("demo-bug " + ("ok" if rc1 not in (0,) else "FAIL passes"))
        if do_tests:
            miss = tests(r)
            out.append("tests " + ("ok" if not miss else "FAIL " + ",".join(miss)))
        for p in dict.fromkeys([meta["property"]] + extra):
            rc, o = sh(f"{V}/bin/check {p} quick", V, 1000, {"VERIF_REPO": r, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            n = o.count("VIOLATION property=" + p)
            out.append(f"{p}:{'CAUGHT' if rc == 1 and n else 'missed' if rc == 0 else 'rc%d' % rc}")
            if rc not in (0, 1):
                out.append(o[-500:])
    finally:
        shutil.rmtree(os.path.dirname(r), ignore_errors=True)
    return out


def main():
    a = sys.argv[1:]
    do_tests = "--tests" in a
    extra, par = [], 1
    for i, x in enumerate(a):
        if x == "--checks":
            extra = a[i + 1].split(",")
        if x == "-j":
            par = int(a[i + 1])
    skip = {a[i + 1] for i, x in enumerate(a) if x in ("--checks", "-j")}
    ids = [x for x in a if not x.startswith("-") and x not in skip] or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(par) as ex:
        for res in ex.map(lambda b: one(b, do_tests, extra), ids):
            print(" | ".join(res), flush=True)


if __name__ == "__main__":
    main()
