"""Histories of runs of one incremental scenario."""
import copy, random

import core, real, scen, trees


def mutate(case, r, first):
    """The next run of a history: usually a small change of the previous one."""
    c = copy.deepcopy(case)
    sc = c["sc"]
    x = r.random()
    dls = [a for a in range(len(sc["ag"])) if sc["ag"][a]["dl"] and sc["ag"][a]["prog"]]
    if x < 0.2 or not dls:
        what = "same"
    elif x < 0.3:
        c, what = copy.deepcopy(first), "first"
    elif x < 0.55:
        a = r.choice(dls)
        prog = sc["ag"][a]["prog"]
        alt = sc["ag"][a]["spare"]
        y = r.random()
        if y < 0.35 and len(prog) > 1:
            prog.pop(r.randrange(len(prog)))
        elif y < 0.8 and alt and len(prog) < 4:
            prog.insert(r.randint(0, len(prog)), copy.deepcopy(r.choice(alt)))
        elif alt:
            prog[r.randrange(len(prog))] = copy.deepcopy(r.choice(alt))
        what = "logic"
    elif x < 0.65:
        a = r.choice(dls)
        sc["ag"][a]["prog"] = tweak(sc["ag"][a]["prog"], r)
        what = "tweak"
    elif x < 0.75:
        sc["N"] = max(1, sc["N"] + r.choice([-2, -1, 1, 2]))
        what = "horizon"
    elif x < 0.83:
        a = r.randrange(len(sc["ag"]))
        ag = sc["ag"][a]
        ag["mode"] = [r.randint(1, n) for n in ag["nds"]]
        what = "mode"
    elif x < 0.97:
        a = r.randrange(len(sc["ag"]))
        ag = sc["ag"][a]
        i = r.randrange(ag["nv"])
        d = 8 * r.choice([-1, 1])
        if r.random() < 0.5 and ag.get("hi") and ag["hi"][i] > ag["init"][i]:
            ag["hi"][i] -= 8
        else:
            ag["init"][i] += d
            if ag.get("hi"):
                ag["hi"][i] += d
        what = "init"
    else:
        c["dt"] = r.choice([0.1, 0.25, 0.5, 1.0])
        what = "dt"
    return c, what


def tweak(prog, r):
    """change one constant or target somewhere"""
    prog = copy.deepcopy(prog)
    spots = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "c" and "n" in x:
                spots.append((x, "n"))
            if x.get("k") == "const":
                spots.append((x, "d"))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(prog)
    if spots:
        x, kind = r.choice(spots)
        x["n"] = x["n"] + 8 * r.choice([-2, -1, 1, 2]) if kind == "n" else (2 if x["n"] == 1 else 1)
    return prog


def gen(i, key, opts, runs):
    case = trees.gen_case(i, key, opts)
    r = random.Random(f"{key}/{i}/hist")
    o = dict(opts)
    o.pop("sc", None)
    g = scen.Gen(random.Random(f"{key}/{i}/spare"), **o)
    g.lab = 50
    for ag in case["sc"]["ag"]:
        ag["spare"] = g.prog(ag) if ag["dl"] else []
    cases, what = [case], ["new"]
    for _ in range(r.randint(1, runs - 1)):
        c, w = mutate(cases[-1], r, case)
        cases.append(c)
        what.append(w)
    for j, (c, w) in enumerate(zip(cases, what)):
        c["id"] = i * 10 + j
        c["hist"] = what[: j + 1]
    return cases


def job(args):
    kind, i, key, opts, runs, cfg = args
    return real.run_history(gen(i, key, opts, runs), kind, **trees.schedule(i, key, cfg))


def entries(case, nodes):
    """the sets whose tubes an incremental verifier may have computed in a run"""
    sc, out = case["sc"], []
    seg = sc.get("seg", 1000)
    for n in nodes:
        if not any(n["trace"]):
            continue
        for a, ag in enumerate(sc["ag"]):
            ini = n["init"][a]
            for k in range(0, len(ini), seg):
                g = ini[k:k + seg]
                out.append({"a": a + 1, "m": n["mode"][a], "rem": sc["N"] - n["start"],
                            "lo": [min(b[0][i] for b in g) for i in range(ag["nv"])],
                            "hi": [max(b[1][i] for b in g) for i in range(ag["nv"])]})
    return out


def with_cache(h):
    acc = []
    for case, rec in h:
        acc += [(case["dt"], e) for e in entries(case, rec["nodes"])]
        mine = [e for dt, e in acc if dt == case["dt"]]
        case["cache"] = [e for i, e in enumerate(mine) if e not in mine[:i]]
    return h


def stage(ctx, kind, name, n, opts, runs=4, cfg=None):
    key = f"{ctx.seed}/{name}"
    cfg = dict({"timeout": ctx.n(10, 60)}, **(cfg or {}))

    def then(recs):
        if kind == "sim":
            trees.validate(ctx, name, "SimTrace", [x for h in recs for x in h])
        else:
            trees.validate(ctx, name, "VerTrace", [x for h in recs for x in with_cache(h)])

    ctx.later(job, [(kind, i + 1, key, opts, runs, cfg) for i in range(n)], then)


def mixed_job(args):
    """2 scenarios, 2-3 runs each, interleaved; runs are simulations, verifications or direct simulations of points"""
    i, key, opts, cfg = args
    r = random.Random(f"{key}/{i}/mixed")
    hs = {}
    for h in (0, 1):
        g = gen(i * 2 + h, key, opts, 3)
        for j, c in enumerate(g):
            c["id"] = i * 100 + h * 10 + j
        kinds = []
        for j, c in enumerate(g):
            k = r.choice(["sim", "ver", "direct"])
            if k != "ver" or r.random() < 0.3:
                # points for simulation
                for ag in c["sc"]["ag"]:
                    ag["hi"] = list(ag["init"])
            # the configuration may change between the runs of a scenario
            if r.random() < 0.5:
                c["sc"].update(uc=r.choice([0, 1]), seg=r.choice([1, 2, 1000]))
            c["sc"]["direct"] = int(k == "direct")
            if k == "direct":
                c["sc"]["uc"] = 0
            kinds.append((c, k))
        hs[h] = kinds
    order = [(h, 0) for h in hs] + []
    left = {h: list(range(1, len(hs[h]))) for h in hs}
    while any(left.values()):
        h = r.choice([h for h in left if left[h]])
        order.append((h, left[h].pop(0)))
    return real.run_mixed(hs, order, **cfg)


def mixed_stage(ctx, name, n, opts):
    key = f"{ctx.seed}/{name}"
    cfg = {"timeout": ctx.n(10, 60)}

    def then(recs):
        allr = [x for h in recs for x in h]
        trees.validate(ctx, name + "-points", "SimTrace", [(c, r) for c, k, r in allr if k != "ver"])
        trees.validate(ctx, name + "-sets", "VerTrace", [(c, r) for c, k, r in allr if k == "ver"])

    ctx.later(mixed_job, [(i + 1, key, opts, cfg) for i in range(n)], then)
