"""Conformance of simulation / verification trees: random scenarios are run by the real library
and the recorded trees are validated by TLC against SimTrace / VerTrace."""
import fnmatch, json, os, random

import common, core, real, scen

MAXNODES = 160
UNITS = [0, 0, 0, -11, -20, 9]


def gen_case(i, key, opts):
    o = dict(opts)
    fix = o.pop("sc", {})
    case = scen.Gen(random.Random(f"{key}/{i}"), **o).scenario(i)
    for ag in case["sc"]["ag"]:
        ag.setdefault("hi", ag["init"])
    if o.get("sens"):
        r = random.Random(f"{key}/{i}/sens")
        case["sc"].update(off=r.choice([0, 8, -16]), reach=r.choice([-1, 12, 20]))
    case["sc"].update(fix)
    if o.get("part"):
        partition(case, random.Random(f"{key}/{i}/part"))
    if o.get("engine"):
        case["engine"] = o["engine"]
        for ag in case["sc"]["ag"]:
            ag["pts"] = int(o["engine"].startswith("disc"))
    if "global" in o.get("engine", ""):
        case["unit"] = random.Random(f"{key}/{i}/unit").choice([0, 9])
    elif not o.get("lanes"):
        case["unit"] = random.Random(f"{key}/{i}/unit").choice(UNITS)
    case["sugar"] = o.get("sugar", True)
    case["deep"] = o.get("deep", False)
    return case


def partition(case, r):
    sc = case["sc"]
    for ag in sc["ag"]:
        ag["prog"] = scen.scaled(ag["prog"], r)
        for k in ("init", "hi"):
            ag[k] = [4 * v for v in ag[k]]
        ag["vel"] = [[4 * v for v in row] for row in ag["vel"]]
    sc["part"], sc["pinit"] = r.choice([1, 2, 2, 2, 4]), r.randint(0, 1)
    nv = sc["ag"][0]["nv"]
    sc["pdims"] = r.choice([list(range(1, nv + 1)), sorted(r.sample(range(1, nv + 1), r.randint(0, nv)))])
    case["pdims"] = 0 if len(sc["pdims"]) == nv and r.random() < 0.5 else 1
    sc["H"] = min(sc["H"], 4 - sc["pinit"] - (sc["part"] == 4))


def schedule(i, key, cfg):
    """with cfg["sched"], the engine runs parallel under a stand-in for ray with seeded schedules"""
    if not cfg.get("sched"):
        return cfg
    import fakeray
    r = random.Random(f"{key}/{i}/sched")
    fakeray.install(f"{key}/{i}")
    ahead = r.choice([1, 2, 3, 8])
    return dict({k: v for k, v in cfg.items() if k != "sched"}, parallel=True, parallel_sim_ahead=ahead, parallel_ver_ahead=ahead,
                try_local=r.random() < 0.3)


def job(args):
    kind, i, key, opts, cfg = args
    case = gen_case(i, key, opts)
    cfg = schedule(i, key, cfg)
    rec = real.run_sim(case, **cfg) if kind == "sim" else real.run_ver(case, **cfg)
    return case, rec


def brief(case):
    return {"id": case["id"], "scenario": scen.strip_sc(case["sc"]), "dt": case["dt"], "unit": case.get("unit", 0), "ids": [p["id"] for p in case["py"]],
            "python": [s[s.find("def "):] if s else None for s in scen.sources(case)]}


def validate(ctx, name, module, recs, clauses=("*",), what="tree"):
    """recs: list of (case, record).  Crashes are violations; nodes are validated by TLC."""
    ok, big, slow = [], 0, 0
    most = MAXNODES if module == "SimTrace" else ctx.n(60, MAXNODES)
    for case, rec in recs:
        if rec["crash"] == "timeout":
            slow += 1
        elif rec["crash"]:
            ctx.violation(f"{name}: the library failed on a scenario ({what}): {rec['crash']}", {"case": case, "rec": rec, "brief": brief(case)})
        elif len(rec["nodes"]) > most:
            big += 1
        elif rec["nodes"]:
            ok.append((case, rec))
    if slow > max(3, len(recs) // 4):
        ctx.violation(f"{name}: the library did not come back within its time limit on {slow} of {len(recs)} small scenarios",
                      {"brief": [brief(c) for c, r in recs if r["crash"] == "timeout"][:3]})
    if not ok:
        return None
    path = common.write_json(os.path.join(ctx.work, name + ".json"), [dict(scen.tla_case(c), nodes=r["nodes"], cache=c.get("cache", [])) for c, r in ok])
    res = core.run_tlc(ctx, module, env={"CASES_FILE": path})
    os.remove(path)
    ctx.cov["traces_validated_against_impl"] += len(ok)
    ctx.cov["nodes_validated"] += res.stats.get("nodes", 0)
    by = {c["id"]: (c, r) for c, r in ok}
    seen, other = set(), 0
    for f in res.fails:
        bad = [b for b in f["bad"] if any(fnmatch.fnmatch(b, p) for p in clauses)]
        if not bad:
            other += 1
            continue
        if f["case"] in seen:
            continue
        seen.add(f["case"])
        case, rec = by[f["case"]]
        ctx.violation(f"{name}: case {f['case']} node {f['node']} ({f['kind']}): clauses {bad} of {module} fail",
                      {"case": case, "rec": rec, "fail": f, "brief": brief(case), "module": module})
    ctx.details[name] = dict(res.stats, tlc_states=res.distinct, tlc_wall=round(res.wall, 1), skipped_big=big, skipped_slow=slow,
                             deviations_outside_clauses=other)
    if ok:
        c, r = ok[len(ok) // 2]
        ctx.sample({"stage": name, "case": brief(c), "nodes": len(r["nodes"]), "first_node": r["nodes"][0]})
    return res


def tree_stage(ctx, kind, name, n, opts, clauses=("*",), cfg=None):
    key = f"{ctx.seed}/{name}"
    cfg = dict({"timeout": ctx.n(10, 60)}, **(cfg or {}))
    ctx.later(job, [(kind, i + 1, key, opts, cfg) for i in range(n)],
              lambda recs: validate(ctx, name, "SimTrace" if kind == "sim" else "VerTrace", recs, clauses))


VER = dict(nv=(1, 2), nag=(1, 2), box=True, exact=False, steps=(2, 6))
