"""Verifications of agents with nonlinear flows, with the simulations their tubes were learnt from (spec/Tubes)."""
import enum, math, random

import real, treeops
from real import BaseAgent, Scenario, config, np, quiet, limit, Timeout
from verse.scenario.scenario import ReachabilityMethod

UNIT = 4000

FLOWS = {
    "pend": (2, lambda p, s: [s[1], -p * math.sin(s[0]) - 0.2 * s[1]]),
    "rot": (2, lambda p, s: [-p * s[1], p * s[0]]),
    "vdp": (2, lambda p, s: [s[1], (1 - s[0] ** 2) * s[1] * 0.5 - p * s[0]]),
    "logi": (1, lambda p, s: [p * s[0] * (1 - abs(s[0]) / 8)]),
    "cub": (1, lambda p, s: [p - s[0] ** 3 / 20]),
    "osc": (1, lambda p, s: [p + math.sin(3 * s[0])]),
}
HEAD = """from enum import Enum, auto
import copy


class AgentMode(Enum):
    A = auto()
    B = auto()


class State:
    {vars}
    mode: AgentMode

    def __init__(self, {args}, mode):
        pass


def decisionLogic(ego: State):
    output = copy.deepcopy(ego)
{body}
    return output
"""


class Diverged(Exception):
    """The flow leaves the range the case is about."""


class Learner(BaseAgent):
    """Integrates its flow and keeps every trace it was asked for."""

    def __init__(self, aid, code, flows, log):
        super().__init__(aid, code)
        self.flows, self.log = flows, log

    def TC_simulate(self, mode, init, time_horizon, time_step, map=None):
        m = mode[0] if not isinstance(mode, str) else mode
        kind, p = self.flows[m]
        f = FLOWS[kind][1]
        n, sub = int(round(time_horizon / time_step)), 4
        h = time_step / sub
        x = [float(v) for v in init]
        rows = [[0.0] + x]
        for i in range(1, n + 1):
            for _ in range(sub):
                k1 = f(p, x)
                k2 = f(p, [a + h / 2 * b for a, b in zip(x, k1)])
                k3 = f(p, [a + h / 2 * b for a, b in zip(x, k2)])
                k4 = f(p, [a + h * b for a, b in zip(x, k3)])
                x = [a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(x, k1, k2, k3, k4)]
            if max(abs(v) for v in x) > 60:
                raise Diverged
            rows.append([round(i * time_step, 8)] + x)
        self.log.append((self.id, m, n, [r[1:] for r in rows]))
        return np.array(rows)


def gen(i, key, engine):
    r = random.Random(f"{key}/{i}")
    agents = []
    nv = r.choice([1, 2])
    for a in range(r.choice([1, 1, 2])):
        kinds = [k for k in FLOWS if FLOWS[k][0] == nv]
        lo = [r.randint(-6, 8) / 4 for _ in range(nv)]
        wid = [r.choice([0, 0.25, 0.5, 1, 1]) for _ in range(nv)]
        guards = []
        for m, o in (("A", "B"), ("B", "A")):
            if r.random() < 0.75:
                v = r.randrange(nv)
                guards.append((m, o, v, r.choice([">=", "<=", ">"]), round(lo[v] + r.choice([-1, 1]) * r.uniform(0.3, 2.2), 3), r.choice([0, 0, 0.5, -1.0])))
        agents.append({"id": ["car", "b"][a], "flows": {m: (r.choice(kinds), r.choice([0.5, 1, 1.5, -0.5])) for m in "AB"}, "lo": lo,
                       "hi": [a + b for a, b in zip(lo, wid)], "guards": guards})
    return {"id": i, "engine": engine, "nv": nv, "agents": agents, "N": r.randint(1, 8), "H": r.randint(2, 4), "dt": r.choice([0.1, 0.2, 0.25, 0.5, 0.05]),
            "seg": r.choice([1000, 1000, 1, 2])}


def source(c, ag):
    names = ["x", "y"][:c["nv"]]
    body = []
    for m, o, v, op, k, f in ag["guards"]:
        body.append(f"    if ego.mode == AgentMode.{m} and ego.{names[v]} {op} {k}:\n        output.mode = AgentMode.{o}"
                    + (f"\n        output.{names[v]} = {f} * ego.{names[v]}" if f else ""))
    return HEAD.format(vars="\n    ".join(n + ": float" for n in names), args=", ".join(names), body="\n".join(body))


METHOD = {"pw": ("DRYVR", {}), "global": ("DRYVR", {"bloating_method": "GLOBAL"}), "disc": ("DRYVR_DISC", {}),
          "disc-global": ("DRYVR_DISC", {"bloating_method": "GLOBAL"})}


def down(v):
    return [int(math.floor(float(x) * UNIT)) for x in v]


def up(v):
    return [int(math.ceil(float(x) * UNIT)) for x in v]


def job(args):
    i, key, engine, timeout = args
    c = gen(i, key, engine)
    log, method = [], METHOD[engine]
    seg = c["seg"] if engine in ("pw", "global") else 1000
    rec = {"id": i, "agents": len(c["agents"]), "N": c["N"], "H": c["H"], "seg": seg, "pts": int(engine.startswith("disc")), "unit": UNIT, "gen": c}
    try:
        with quiet(), limit(timeout):
            s = Scenario(config(init_seg_length=seg, reachability_method=getattr(ReachabilityMethod, method[0])))
            for ag in c["agents"]:
                s.add_agent(Learner(ag["id"], source(c, ag), ag["flows"], log))

            M = enum.Enum("AgentMode", ["A", "B"])
            s.set_init([[ag["lo"], ag["hi"]] for ag in c["agents"]], [(M.A,) for _ in c["agents"]])
            t = s.verify(round(c["N"] * c["dt"], 8), c["dt"], c["H"], params=dict(method[1]))
    except (Timeout, Diverged):
        return None
    except Exception as e:  # noqa: BLE001
        return {"id": i, "crash": real.crash_text(e), "gen": c}
    ids = [ag["id"] for ag in c["agents"]]
    if not all(abs(v) < 100 for _, _, _, rows in log for q in rows for v in q):
        return None
    at = {}
    nodes = []
    big = 0.0
    order = [(t.root, 0)]
    for n, par in order:
        at[id(n)] = len(nodes) + 1
        rows = {}
        for a in ids:
            tr = n.trace.get(a) or []
            if not all(abs(float(v)) < 1e4 for q in list(tr) + [y for b in n.init[a] for y in b] for v in q):
                return None
            rows[a] = [[int(round(tr[k][0] / c["dt"])), down(tr[k][1:]), int(round(tr[k + 1][0] / c["dt"])), up(tr[k + 1][1:])] for k in range(0, len(tr) - 1, 2)]
            big = max([big] + [abs(float(v)) for r in tr for v in r[1:]])
        nodes.append({"parent": par, "height": n.height, "start": int(round(n.start_time / c["dt"])), "mode": [n.mode[a][0] if not isinstance(n.mode[a], str) else n.mode[a] for a in ids],
                      "init": [[[down(b[0]), up(b[1])] for b in n.init[a]] for a in ids], "tube": [rows[a] for a in ids]})
        order += [(k, at[id(n)]) for k in n.child]
    if big > 100 or len(nodes) > 60:
        return None
    # a batch begins where the simulated point is the centre of a set whose tube is due
    def name(p):
        return " ".join(f"{v + 0.0:.9f}" for v in p).replace("-0.000000000", "0.000000000")

    centres = {}
    for n, (node, _) in zip(nodes, order):
        n["at"] = []
        for a, aid in enumerate(ids):
            ini = [[[float(v) for v in y] for y in b] for b in node.init[aid]]
            groups = [ini[j:j + seg] for j in range(0, len(ini), seg)]
            mids = [[(min(b[0][k] for b in g) + max(b[1][k] for b in g)) / 2 for k in range(c["nv"])] for g in groups]
            n["at"].append([name(p) for p in mids])
            centres.setdefault((aid, n["mode"][a], c["N"] - n["start"]), []).extend(mids)
    batches, last = [], None
    for a, m, rem, rows in log:
        new = [p for p in centres.get((a, m, rem), ()) if all(abs(x - y) <= 1e-10 for x, y in zip(p, rows[0]))]
        if last != (a, m, rem) or new:
            batches.append({"a": ids.index(a) + 1, "m": m, "rem": rem, "at": name(new[0]) if new else "", "traces": []})
        last = (a, m, rem)
        batches[-1]["traces"].append([[int(round(v * UNIT)) for v in q] for q in rows])
    uniq = []
    for b in batches:
        if b not in uniq:
            uniq.append(b)
    return dict(rec, nodes=nodes, batches=uniq)


def stage(ctx, name, n, engine):
    key = f"{ctx.seed}/{name}"

    def then(recs):
        late = sum(r is None for r in recs)
        treeops.check(ctx, name, "Tubes", recs)
        ctx.details.setdefault(name, {})["skipped"] = late
        if late > max(3, n // 3):
            ctx.violation(f"{name}: {late} of {n} runs end too late or out of bounds", {})

    ctx.later(job, [(i + 1, key, engine, ctx.n(15, 60)) for i in range(n)], then)
