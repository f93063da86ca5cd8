"""Histories of calls on a scenario object, judged by spec/InitApi."""
import enum, os, random

import core, real, scen, trees
from common import write_json
from real import np
from verse.map.lane_map import LaneMap
from verse.sensor.base_sensor import BaseSensor

S = 10 ** 6
Stat = enum.Enum("Stat", ["Wide", "Narrow"])


def num(v):
    return int(round(float(v) * S))


def nums(v):
    return [nums(x) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else num(v)


def root_of(t, ids):
    r = t.root
    return {"pt": {a: nums(v) for a, v in r.init.items()},
            "tr": {a: nums(np.asarray(r.trace[a])[0][1:]) if a in r.trace else nums(r.init[a]) for a in r.init},
            "mode": {a: [str(getattr(x, "name", x)) for x in m] for a, m in r.mode.items()},
            "stat": {a: list(v) for a, v in r.static.items()}, "unc": {a: nums(v) for a, v in r.uncertain_param.items()}, "ag": sorted(r.agent)}


def job(args):
    i, key = args
    r = random.Random(f"{key}/{i}")
    opts = dict(nag=(1, 3), stmts=(1, 2), asserts=0.2, H=(1, 3), steps=(1, 3), same2=1, sugar=False, nodl=0.1)
    case = trees.gen_case(i, key, opts)
    ags, py = case["sc"]["ag"], case["py"]
    ops, held = [], []
    s = real.Scenario(real.config())
    with real.quiet():
        agents = [real.make_agent(case, ag, nm, src) for ag, nm, src in zip(ags, py, scen.sources(case))]
    left = list(range(len(ags)))
    order, has, alias, seeds = [], set(), [], [0, 1, 7]

    def box(a):
        lo = [r.randint(-4, 4) * r.choice([1, 1, 0.5]) for _ in range(ags[a]["nv"])]
        x = r.random()
        if x < 0.25:
            return [lo]
        return [lo, [v + r.choice([0, 0, 1, 2.5]) for v in lo]]

    def modes(a):
        names = [py[a]["modes"][j][r.randrange(n)] for j, n in enumerate(ags[a]["nds"])]
        x = r.random()
        if x < 0.4:
            vals = tuple(enum.Enum(py[a]["dtype"][j], py[a]["modes"][j])[n] for j, n in enumerate(names))
        else:
            vals = tuple(names)
        return names, (list(vals) if r.random() < 0.2 else vals)

    def params():
        return (["Wide"], [Stat.Wide]) if r.random() < 0.3 else ([], []), ([1, 0.5] if r.random() < 0.2 else [])

    def call(rec, f):
        err = ""
        try:
            with real.quiet(), real.limit(30):
                f()
        except real.Timeout:
            raise
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__
            rec["text"] = real.crash_text(e)
        rec["err"] = err
        ops.append(rec)

    for _ in range(r.randint(4, 12)):
        x = r.random()
        if left and (x < 0.45 or not order):
            a = left.pop(r.randrange(len(left)))
            y = r.random()
            ag = agents[a]
            nm, mv = modes(a)
            b = []
            if y < 0.5:
                b = box(a)
                if ags[a]["dl"] and y < 0.25:
                    ag.init_cont, ag.init_disc = [list(p) for p in b], mv
                else:
                    ag.set_initial([list(p) for p in b], mv)
            call({"op": "add", "a": py[a]["id"], "init": nums(b), "mode": nm if b else []}, lambda: s.add_agent(ag))
            order.append(a)
            if b:
                has.add(a)
        elif x < 0.5:
            bs = [box(a) for a in order]
            ms = [modes(a) for a in order]
            ps = [params() for _ in order]
            alias.append(bs)
            kw = {}
            if r.random() < 0.5:
                kw = {"static_list": [p[0][1] for p in ps], "uncertain_param_list": [p[1] for p in ps]}
            else:
                ps = [(([], []), []) for _ in order]
            call({"op": "all", "init": nums(bs), "mode": [m[0] for m in ms], "stat": [p[0][0] for p in ps], "unc": nums([p[1] for p in ps])},
                 lambda: s.set_init(bs, [m[1] for m in ms], **kw))
            has.update(order)
        elif x < 0.6:
            a = r.choice(order)
            b, m, p = box(a), modes(a), params()
            alias.append(b)
            call({"op": "single", "a": py[a]["id"], "init": nums(b), "mode": m[0], "stat": p[0][0], "unc": nums(p[1])},
                 lambda: s.set_init_single(py[a]["id"], b, m[1], p[0][1], p[1]))
            has.add(a)
        elif x < 0.64:
            no = [a for a in order if a not in has]
            if no:
                a = r.choice(no)
                b, m = box(a), modes(a)
                call({"op": "agent", "a": py[a]["id"], "init": nums(b), "mode": m[0]}, lambda: agents[a].set_initial([list(p) for p in b], m[1]))
                # the scenario picks it up at the next run; until then it may be replaced
                has.add(a)
                call({"op": "ver"}, lambda: held.append(("ver", len(ops), s.verify(real.horizon(case), case["dt"], 1))))
        elif x < 0.7:
            if alias:
                z = r.choice(alias)
                while isinstance(z, list) and z and isinstance(z[0], list):
                    z = r.choice(z)
                if z:
                    z[0] = 77.0
                ops.append({"op": "caller", "err": ""})
        elif x < 0.74:
            y = r.choice(["cfg", "sensor", "map", "clean"])
            f = {"cfg": lambda: s.update_config(real.config()), "sensor": lambda: s.set_sensor(BaseSensor()),
                 "map": lambda: s.set_map(LaneMap()), "clean": lambda: s.cleanup_cache()}[y]
            call({"op": y}, f)
        elif x < 0.78:
            a = r.choice(order)
            y = r.choice(["bad_all", "bad_dim", "bad_mode", "bad_agent"])
            b, m = [[0.0] * ags[a]["nv"]] * 2, modes(a)[1]
            if y == "bad_all":
                f = lambda: s.set_init([b] * (len(order) + 1), [m] * (len(order) + 1))
            elif y == "bad_agent":
                f = lambda: s.set_init_single("nobody", b, m)
            elif not ags[a]["dl"]:
                continue
            elif y == "bad_dim":
                f = lambda: s.set_init_single(py[a]["id"], [p + [0.0] for p in b], m)
            else:
                f = lambda: s.set_init_single(py[a]["id"], b, tuple(m) + (m[0],))
            call({"op": y}, f)
        else:
            k = r.choice(["sim", "sim", "direct", "ver", "multi", "multi_points"])
            if any(not ags[a]["dl"] for a in order) and k == "direct":
                k = "sim"
            if k == "direct" and not all(hasattr(agents[a].decision_logic, "controller_code") for a in order):
                k = "sim"
            seed = r.choice(seeds + [-1])
            sd = None if seed < 0 else seed
            H = case["sc"]["H"]
            rec = {"op": k, "seed": seed}
            T, dt = real.horizon(case), case["dt"]
            n = r.randint(1, 3)
            if k == "sim":
                call(rec, lambda: held.append((k, len(ops), [s.simulate(T, dt, H, seed=sd)])))
            elif k == "direct":
                call(rec, lambda: held.append((k, len(ops), [s.simulate_simple(T, dt, H, seed=sd)])))
            elif k == "ver":
                call(rec, lambda: held.append((k, len(ops), s.verify(T, dt, 1))))
            elif k == "multi":
                rec["n"] = n
                call(rec, lambda: held.append((k, len(ops), s.simulate_multi(T, dt, max_height=H, seed=sd, num_sims=n))))
            else:
                pts = [{py[a]["id"]: [float(r.randint(-9, 9)) for _ in range(ags[a]["nv"])] for a in order} for _ in range(n)]
                rec["pts"] = [{a: nums(p) for a, p in q.items()} for q in pts]
                call(rec, lambda: held.append((k, len(ops), s.simulate_multi(T, dt, [dict(q) for q in pts], max_height=H))))
    # the trees are looked at when everything is over
    ids = [p["id"] for p in py]
    try:
        for k, j, t in held:
            if k == "ver":
                rt = root_of_ver(t)
                ops[j]["root"] = rt
            else:
                ops[j]["roots"] = [root_of(x, ids) for x in t]
    except Exception as e:  # noqa: BLE001
        return {"id": i, "crash": real.crash_text(e), "ops": ops}
    for o in ops:
        if o["op"] in ("sim", "direct", "multi", "multi_points") and "roots" not in o:
            o["roots"] = []
    return {"id": i, "ops": ops}


def root_of_ver(t):
    r = t.root
    return {"box": {a: nums(v) for a, v in r.init.items()},
            "mode": {a: [str(getattr(x, "name", x)) for x in m] for a, m in r.mode.items()},
            "stat": {a: list(v) for a, v in r.static.items()}, "unc": {a: nums(v) for a, v in r.uncertain_param.items()}, "ag": sorted(r.agent)}


def safe_job(args):
    try:
        return job(args)
    except real.Timeout:
        return None


def stage(ctx, name, n):
    import treeops
    key = f"{ctx.seed}/{name}"

    def then(recs):
        treeops.check(ctx, name, "InitApi", recs)

    ctx.later(safe_job, [(i + 1, key) for i in range(n)], then, chunk=8)
