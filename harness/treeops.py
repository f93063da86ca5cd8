"""Analysis trees as data: containment, equality, queries, dump and load, judged by spec/TreeOps."""
import copy, json, os, random, tempfile

import core, real, scen, trees
from common import write_json, VERIF
from real import np, AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType
from verse.analysis.analysis_tree import first_transitions


# ---------------------------------------------------------------- abstract trees -> real ones
def gen_tree(r, typ, agents, nv, dt, maxn=8, chain=False, many=True):
    """random abstract tree: nodes with parent index, modes, start step and traces"""
    n = r.randint(1, maxn)
    nodes = []
    for i in range(n):
        p = 0 if i == 0 else (i if chain else r.randint(1, i))
        par = nodes[p - 1] if p else None
        start = 0 if p == 0 else par["start"] + r.randint(0, par["len"])
        ln = r.randint(1, 4)
        mode = {}
        for a in agents:
            mode[a] = [r.choice(["A", "B"]), r.choice(["T0", "T1"])] if p == 0 or r.random() < 0.4 else list(par["mode"][a])
        tr = {}
        for a in agents:
            if typ == "simtrace":
                v0 = [r.randint(-3, 3) for _ in range(nv)]
                tr[a] = [[start + k, [v + k for v in v0]] for k in range(ln + 1)]
            else:
                rows = []
                for k in range(ln):
                    lo = [r.randint(-4, 3) for _ in range(nv)]
                    rows.append([start + k, lo, start + k + 1, [l + r.randint(0, 3) for l in lo]])
                tr[a] = rows
        if p and r.random() < 0.15:
            tr = {} if typ == "simtrace" or r.random() < 0.5 else {a: tr[a] for a in agents if r.random() < 0.5}
        nodes.append({"parent": p, "height": 0 if p == 0 else par["height"] + 1, "start": start, "len": ln, "mode": mode, "trace": tr,
                      "hits": {agents[0]: [r.choice(["L1", "unsafe"])]} if r.random() < 0.2 else {},
                      "init": {a: [r.randint(-3, 3) for _ in range(nv)] if typ == "simtrace" else
                               [[[r.randint(-3, 0)] * nv, [r.randint(0, 3)] * nv] for _ in range(r.randint(1, 2))] for a in agents}})
    return {"type": typ, "agents": agents, "nv": nv, "dt": dt, "nodes": nodes}


class Dummy:
    """stands in for an agent where only its id matters"""
    decision_logic = None


def to_real(t):
    typ = AnalysisTreeNodeType._from_str(t["type"])
    ags = {}
    for a in t["agents"]:
        ags[a] = Dummy()
    out = []
    dt = t["dt"]
    for i, n in enumerate(t["nodes"]):
        if t["type"] == "simtrace":
            tr = {a: np.array([[k * dt] + [float(v) for v in x] for k, x in rows]) for a, rows in n["trace"].items()}
        else:
            tr = {a: [row for tl, lo, th, hi in rows for row in ([tl * dt] + [float(v) for v in lo], [th * dt] + [float(v) for v in hi])]
                  for a, rows in n["trace"].items()}
        nd = AnalysisTreeNode(tr, copy.deepcopy(n["init"]), {a: tuple(m) for a, m in n["mode"].items()}, {a: ["S"] for a in t["agents"]},
                              {a: [] for a in t["agents"]}, ags, n["height"], copy.deepcopy(n["hits"]), [], n["start"] * dt, 10, typ, i)
        out.append(nd)
        if n["parent"]:
            out[n["parent"] - 1].child.append(nd)
    return AnalysisTree(out[0])


# ---------------------------------------------------------------- real ones -> records
def intval(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [intval(x) for x in v]
    v = float(v)
    i = round(v)
    return int(i) if abs(v - i) < 1e-6 * max(1, abs(v)) else 10 ** 7 + int(v * 64)


def project(tree, dt, nv=None):
    order, par = real.bfs(tree)
    typ = str(tree.root.type)
    nodes = []
    for n, p in zip(order, par):
        tr = {}
        for a, rows in n.trace.items():
            rows = np.asarray(rows, dtype=float).tolist() if len(rows) else []
            if typ == "simtrace":
                tr[a] = [[intval(x[0] / dt), intval(x[1:])] for x in rows]
            else:
                tr[a] = [[intval(l[0] / dt), intval(l[1:]), intval(u[0] / dt), intval(u[1:])] for l, u in zip(rows[::2], rows[1::2])]
        hits = n.assert_hits[0] if isinstance(n.assert_hits, tuple) else n.assert_hits
        nodes.append({"id": n.id, "parent": p, "height": n.height, "start": intval(n.start_time / dt), "type": str(n.type),
                      "mode": {a: [str(getattr(x, "name", x)) for x in ([m] if isinstance(m, str) else m)] for a, m in n.mode.items()},
                      "init": {a: intval(v) for a, v in n.init.items()}, "trace": tr,
                      "hits": {a: list(v) for a, v in (hits or {}).items()},
                      "static": {a: [str(x) for x in v] for a, v in n.static.items()},
                      "up": {a: [str(x) for x in v] for a, v in n.uncertain_param.items()}, "nd": n.ndigits})
    return {"type": typ, "agents": sorted(tree.root.agent), "nodes": nodes,
            "nv": nv if nv is not None else 1}


def queries(tree, dt):
    order, _ = real.bfs(tree)
    pos = {id(n): i + 1 for i, n in enumerate(order)}
    return {"leaves": tree.leaves(), "nodes": [pos.get(id(n), 0) for n in tree.nodes],
            "leafs": [[pos.get(id(x), 0) for x in tree.get_leaf_nodes(n)] for n in order],
            "height": [tree.height(n) for n in order],
            "first": {a: intval(t / dt) for a, t in first_transitions(tree).items()}}


def mutate(t, r, agents):
    u = copy.deepcopy(t)
    x = r.random()
    withtr = [n for n in u["nodes"] if n["trace"]]
    if x < 0.12:
        what = "same"
    elif x < 0.3:
        what = "permuted"
        order = list(range(1, len(u["nodes"])))
        # a random order in which parents still come first
        new, pos, left = [0], {0: 0}, order[:]
        while left:
            i = r.choice([j for j in left if u["nodes"][j]["parent"] - 1 in pos])
            left.remove(i)
            pos[i] = len(new)
            new.append(i)
        u["nodes"] = [dict(u["nodes"][i], parent=0 if i == 0 else pos[u["nodes"][i]["parent"] - 1] + 1) for i in new]
        # the library only sees children lists; ids differ, which does not matter
    elif x < 0.6 and withtr:
        what = "perturbed"
        for _ in range(r.randint(1, 2)):
            n = r.choice(withtr)
            a = r.choice(sorted(n["trace"]))
            row = r.choice(n["trace"][a]) if n["trace"][a] else None
            if row:
                k = r.choice([1] if t["type"] == "simtrace" else [1, 3])
                d = r.randrange(t["nv"])
                s = r.choice([-1, 1, -2, 2, 3])
                if t["type"] == "simtrace":
                    row[1][d] += s
                elif k == 1:
                    row[1][d] = min(row[1][d] + s, row[3][d])
                else:
                    row[3][d] = max(row[3][d] + s, row[1][d])
    elif x < 0.7 and len(u["nodes"]) > 1:
        what = "pruned"
        u["nodes"].pop()
    elif x < 0.78 and withtr:
        what = "short"
        n = r.choice(withtr)
        a = r.choice(sorted(n["trace"]))
        n["trace"][a] = n["trace"][a][:-1] if len(n["trace"][a]) > 1 else n["trace"][a]
    elif x < 0.84 and withtr:
        what = "dropped"
        n = r.choice(withtr)
        if len(n["trace"]) > 1 or u["nodes"].index(n):
            n["trace"].pop(r.choice(sorted(n["trace"])))
    elif x < 0.92 and len(agents) > 1:
        what = "fewer agents"
        a = r.choice(agents)
        u["agents"] = [b for b in agents if b != a]
        for n in u["nodes"]:
            for f in ("trace", "mode", "init", "hits"):
                n[f].pop(a, None)
    else:
        what = "other"
        u = gen_tree(r, t["type"], agents, t["nv"], t["dt"])
    return u, what


def contains_job(args):
    i, key = args
    r = random.Random(f"{key}/{i}")
    typ = r.choice(["simtrace", "reachtube"])
    agents = r.choice(scen.ID_POOLS)[: r.randint(1, 3)]
    dt = r.choice([0.1, 0.25, 0.05, 1.0])
    tol = r.choice([None, None, 0.5, 1.5, 2.5])
    chain = typ == "simtrace" and tol is not None and tol > 0.5
    t = gen_tree(r, typ, agents, r.randint(1, 2), dt, maxn=3 if chain else 7, chain=chain)
    u, what = mutate(t, r, agents)
    if chain and what == "other":
        u = copy.deepcopy(t)
    if r.random() < 0.3:
        t, u = u, t
    strict = r.random() < 0.6
    if not t["agents"] or not u["agents"]:
        return None
    try:
        with real.quiet(), real.limit(30):
            T, U = to_real(t), to_real(u)
            ans = {"tu": bool(T.contains(U, strict, tol)), "ut": bool(U.contains(T, strict, tol)), "tt": bool(T.contains(T))}
            if tol is None:
                ans["eq"] = bool(T.is_equal(U))
            rec = {"id": i, "what": "contains", "t": project(T, dt, t["nv"]), "u": project(U, dt, u["nv"]), "ans": ans, "strict": int(strict),
                   "tol2": 0 if tol is None else int(2 * tol), "tol2s": 1 if tol is None else int(2 * tol), "mut": what}
        return rec
    except BaseException as e:  # noqa: BLE001
        return {"id": i, "crash": real.crash_text(e), "t": t, "u": u, "strict": strict, "tol": tol}


def real_tree(i, key):
    r = random.Random(f"{key}/{i}")
    kind = r.choice(["sim", "ver"])
    opts = r.choice([dict(), dict(map=1.0), dict(asserts=0.9), dict(nag=(2, 3), stmts=(2, 4), resets=0.8), dict(H=(2, 4), bothbr=0.5)])
    if kind == "ver":
        opts = dict(trees.VER, **dict(opts, sc={"seg": r.choice([1, 2, 1000])}))
    case = trees.gen_case(i, key, opts)
    s = real.build(case, real.config(init_seg_length=case["sc"].get("seg", 1000)))
    real.set_init(case, s)
    t = (s.simulate if kind == "sim" else s.verify)(real.horizon(case), case["dt"], real.maxh(case))
    return t, case["dt"], max(p["nv"] for p in case["sc"]["ag"])


def pick_tree(i, key):
    r = random.Random(f"{key}/{i}/pick")
    if r.random() < 0.5:
        dt = r.choice([0.1, 0.25, 0.05, 1.0])
        nv = r.randint(1, 2)
        t = to_real(gen_tree(r, r.choice(["simtrace", "reachtube"]), r.choice(scen.ID_POOLS)[: r.randint(1, 3)], nv, dt, maxn=12))
        return t, dt, nv
    return real_tree(i, key)


def query_job(args):
    i, key = args
    try:
        with real.quiet(), real.limit(30):
            t, dt, nv = pick_tree(i, key)
            if len(t.nodes) > 60:
                return None
            return {"id": i, "what": "query", "t": project(t, dt, nv), "q": queries(t, dt)}
    except real.Timeout:
        return None
    except BaseException as e:  # noqa: BLE001
        return {"id": i, "crash": real.crash_text(e)}


def fixed_job(args):
    """fixed points: is everything reached at the end already reached before?"""
    i, key = args
    r = random.Random(f"{key}/{i}")
    agents = r.choice(scen.ID_POOLS)[: r.choice([1, 1, 2])]
    nv = r.randint(1, 2) if len(agents) == 1 else 1
    dt = r.choice([0.1, 0.25, 0.05, 1.0])
    t = gen_tree(r, "reachtube", agents, nv, dt, maxn=r.choice([1, 3, 6]))
    full = [n for n in t["nodes"] if len(n["trace"]) == len(agents)]
    T = max(n["start"] + n["len"] for n in full)
    for n in full:
        if r.random() < 0.7:
            for a in agents:
                n["mode"][a] = ["A", "T0"]
    old = [(n, k) for n in full for k in range(n["len"]) if n["start"] + k + 1 < T]
    for n in full:
        if n["start"] + n["len"] == T and old and r.random() < 0.9:
            # a set that lies in one reached before, or in the hull of two of them
            m, k = r.choice(old)
            m2, k2 = r.choice(old)
            for a in agents:
                n["mode"][a] = list(m["mode"][a])
                x, y = m["trace"][a][k], m2["trace"][a][k2]
                row = n["trace"][a][-1]
                two = r.random() < 0.3
                row[1] = [min(p, q) if two else p for p, q in zip(x[1], y[1])]
                row[3] = [max(p, q) if two else p for p, q in zip(x[3], y[3])]
                if r.random() < 0.1:
                    row[3][0] += 1
    lo = r.randint(0, T)
    hi = r.randint(lo, T)
    try:
        with real.quiet(), real.limit(60):
            from verse.utils.fixed_points import fixed_points_fix, reach_at_fix
            tree = to_real(t)
            got = reach_at_fix(tree, (lo - 0.01) * dt, (hi + 0.01) * dt)
            boxes, w = [], nv + 2
            for rows in got.values():
                rows = rows or []
                for x, y in zip(rows[::2], rows[1::2]):
                    pick = lambda v: [intval(v[a * w + j]) for a in range(len(agents)) for j in range(nv)]
                    boxes.append([pick(x), pick(y)])
            return {"id": i, "what": "fixed", "t": project(tree, dt, nv), "T": T, "fix": int(bool(fixed_points_fix(tree, T * dt, dt))),
                    "order": agents, "win": [lo, hi], "boxes": boxes}
    except real.Timeout:
        return None
    except BaseException as e:  # noqa: BLE001
        return {"id": i, "crash": real.crash_text(e), "t": t}


def dump_job(args):
    i, key, work = args
    p = os.path.join(work, f"dump_{os.getpid()}_{i}.json")
    try:
        with real.quiet(), real.limit(60):
            t, dt, nv = pick_tree(i, key)
            if len(t.nodes) > 60:
                return None
            t.dump(p)
            a = open(p).read()
            u = AnalysisTree.load(p)
            same = 1
            # agents are only saved by the name of their type, so the second dump is compared without them
            ja = json.loads(a)
            u.dump(p)
            jb = json.loads(open(p).read())
            for j in (ja, jb):
                for n in j.values():
                    n["agent"] = sorted(n["agent"])
            same = int(ja == jb)
            return {"id": i, "what": "dump", "t": project(t, dt, nv), "r": project(u, dt, nv), "same": same,
                    "rc": int(bool(t.contains(u)) and bool(u.contains(t)) and bool(u.is_equal(t)))}
    except real.Timeout:
        return None
    except BaseException as e:  # noqa: BLE001
        return {"id": i, "crash": real.crash_text(e)}
    finally:
        if os.path.exists(p):
            os.remove(p)


def check(ctx, name, module, recs):
    good = []
    for r in recs:
        if r is None:
            continue
        if "crash" in r:
            ctx.violation(f"{name}: the library failed: {r['crash']}", r)
        else:
            good.append(r)
    if not good:
        return
    path = write_json(os.path.join(ctx.work, name + ".json"), good)
    res = core.run_tlc(ctx, module, env={"CASES_FILE": path})
    os.remove(path)
    ctx.cov["traces_validated_against_impl"] += len(good)
    by = {r["id"]: r for r in good}
    for f in res.fails:
        ctx.violation(f"{name}: case {f['case']}: {f['bad']} of {module} fail", {"fail": f, "rec": by[f["case"]]})
    ctx.details[name] = dict(res.stats, tlc_states=res.distinct, tlc_wall=round(res.wall, 1))
    ctx.sample({"stage": name, "case": str(good[len(good) // 2])[:1500]})


def stage(ctx, name, fn, n):
    key = f"{ctx.seed}/{name}"
    extra = (ctx.work,) if fn is dump_job else ()
    ctx.later(fn, [(i + 1, key) + extra for i in range(n)], lambda recs: check(ctx, name, "TreeOps", recs), chunk=8)
