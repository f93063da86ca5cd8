"""Scenarios that TLC enumerates (spec/Family) replayed into the real library."""
import copy, json, os, random

import common, core, cover, real, scen, trees


def export(ctx, fam, shards):
    r = common.tlc("FamilyExport", "SPECIFICATION Spec\n", ctx.work, env={"FAMILY": fam, "SHARDS": str(shards), "SHARD": str(ctx.seed)})
    if not r.ok:
        raise common.MachineryError("TLC on FamilyExport failed:\n" + r.out[-2000:])
    out = []
    for line in r.out.splitlines():
        if line.startswith('"CASE '):
            out.append(json.loads(json.loads(line)[5:]))
    return sorted(out, key=lambda c: c["id"])


def dress(c, key):
    """names and spelling for an abstract scenario"""
    r = random.Random(f"{key}/{c['id']}")
    pi = r.randrange(4)
    ids, pv = r.choice(scen.ID_POOLS), r.choice(scen.VAR_POOLS)
    py = []
    for a, ag in enumerate(c["sc"]["ag"]):
        ag.update(nds=[2], sees=int(len(c["sc"]["ag"]) > 1), hom=1, nmo=2, usemap=0)
        py.append({"id": ids[a], "cont": pv[:1], "disc": scen.DISC_POOLS[pi][:1], "dtype": ["AgentMode"], "modes": [scen.MODE_POOLS[pi][:2]],
                   "state": "State", "rs": r.randrange(1 << 30)})
    return dict(c, py=py, dt=r.choice([0.1, 0.25, 1.0, 0.05]), sugar=True)


def sim_job(args):
    c, key, cfg = args
    case = dress(c, key)
    r = random.Random(f"{key}/{c['id']}/pt")
    for ag in case["sc"]["ag"]:
        ag["init"] = [r.choice([lo, hi, (lo + hi) // 2, min(hi, lo + 4)]) for lo, hi in zip(ag["init"], ag["hi"])]
        ag["hi"] = list(ag["init"])
    return case, real.run_sim(case, **cfg)


def ver_job(args):
    c, key, cfg = args
    case = dress(c, key)
    return case, real.run_ver(case, **cfg)


def stage(ctx, kind, fam, shards):
    name = f"family-{fam}-{kind}"
    key = f"{ctx.seed}/{name}"
    cfg = {"timeout": ctx.n(10, 60)}
    cs = export(ctx, fam, shards)
    ctx.later(sim_job if kind == "sim" else ver_job, [(c, key, cfg) for c in cs],
              lambda recs: trees.validate(ctx, name, "SimTrace" if kind == "sim" else "VerTrace", recs), chunk=8)


def design(ctx, fam, shards):
    """model checking of the specifications themselves"""
    r = common.tlc("Design", "SPECIFICATION Spec\nINVARIANTS Inv1 Inv2 Inv3 Inv4\n", ctx.work,
                   env={"FAMILY": fam, "SHARDS": str(shards), "SHARD": str(ctx.seed)}, timeout=ctx.n(600, 6000), heap="12g")
    if not r.ok:
        raise common.MachineryError(f"the specification violates its own properties (family {fam}):\n" + r.out[-3000:])
    ctx.cov["states"] += r.distinct
    ctx.cov["transitions"] += r.generated
    ctx.details["design-" + fam] = {"states": r.distinct, "transitions": r.generated, "shards": shards, "wall": round(r.wall, 1)}
