"""Simulations of points against the verification of the set they come from (spec/CoverTrace)."""
import copy, json, os, random

import common, core, real, scen, trees


def pick(r, lo, hi):
    """a point off the thresholds; where the set is a point there is no choice"""
    return [a if a == b else r.randrange(a, b) // 2 * 2 + 1 for a, b in zip(lo, hi)]


def job(args):
    i, key, opts, k, cfg = args
    case = trees.gen_case(i, key, opts)
    r = random.Random(f"{key}/{i}/points")
    v = real.run_ver(case, **cfg)
    sims = []
    if not v["crash"]:
        for _ in range(k):
            c = copy.deepcopy(case)
            for ag in c["sc"]["ag"]:
                ag["init"] = pick(r, ag["init"], ag["hi"])
                ag["hi"] = list(ag["init"])
            s = real.run_sim(c, **cfg)
            sims.append((c, s))
    return case, v, sims


def validate(ctx, name, recs):
    good = []
    for case, v, sims in recs:
        for c, s in [(case, v)] + sims:
            if s["crash"] and s["crash"] != "timeout":
                ctx.violation(f"{name}: the library failed on a scenario: {s['crash']}", {"case": c, "brief": trees.brief(c)})
        ok = [s["nodes"] for _, s in sims if s["nodes"] and len(s["nodes"]) <= trees.MAXNODES]
        if v["nodes"] and len(v["nodes"]) <= 2 * trees.MAXNODES and ok:
            good.append((case, v["nodes"], ok))
    path = common.write_json(os.path.join(ctx.work, name + ".json"), [dict(scen.tla_case(c), ver=v, sims=s) for c, v, s in good])
    res = core.run_tlc(ctx, "CoverTrace", env={"CASES_FILE": path})
    os.remove(path)
    ctx.cov["traces_validated_against_impl"] += sum(len(s) for _, _, s in good)
    by = {c["id"]: (c, v, s) for c, v, s in good}
    for f in res.fails:
        c, v, s = by[f["case"]]
        ctx.violation(f"{name}: case {f['case']} {f['kind']} node {f['node']}: {f['bad']}",
                      {"fail": f, "brief": trees.brief(c), "ver": v, "sim": s[int(f["kind"][3:]) - 1]})
    ctx.details[name] = dict(res.stats, tlc_states=res.distinct, tlc_wall=round(res.wall, 1))
    if good:
        c, v, s = good[len(good) // 2]
        ctx.sample({"stage": name, "case": trees.brief(c), "ver_nodes": len(v), "sims": len(s)})


def stage(ctx, name, n, opts, k=5):
    key = f"{ctx.seed}/{name}"
    cfg = {"timeout": ctx.n(10, 60)}
    ctx.later(job, [(i + 1, key, opts, k, cfg) for i in range(n)], lambda recs: validate(ctx, name, recs))


def known(ctx):
    """The listed findings about coverage: printed while they are there, counted as nothing else."""
    path = os.path.join(common.VERIF, "known_findings.json")
    for k in json.load(open(path))["known"]:
        if k["property"] != ctx.prop:
            continue
        v = real.run_ver(copy.deepcopy(k["case"]), timeout=60)
        sims = []
        for pt in k["points"]:
            c = copy.deepcopy(k["case"])
            for ag, p in zip(c["sc"]["ag"], pt):
                ag.update(init=p, hi=list(p))
            sims.append(real.run_sim(c, timeout=60)["nodes"])
        if not v["nodes"] or not all(sims):
            continue
        f = common.write_json(os.path.join(ctx.work, "known.json"), [dict(scen.tla_case(k["case"]), ver=v["nodes"], sims=sims)])
        if core.run_tlc(ctx, "CoverTrace", env={"CASES_FILE": f, "STRICT": str(k["strict"])}).fails:
            ctx.known.append(f"{k['id']}: {k['what']}")
