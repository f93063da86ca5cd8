"""Everything that touches the real library: building scenarios, running the engines
and projecting their trees onto the abstract state the specifications talk about."""
import contextlib, io, os, signal, sys, warnings

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PLOTLY_RENDERER", "json")
os.environ.setdefault("RAY_USAGE_STATS_ENABLED", "0")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
from common import REPO

sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402

import verse  # noqa: E402
from verse.sensor.base_sensor import BaseSensor  # noqa: E402
from verse import BaseAgent, Scenario, ScenarioConfig, LaneMap  # noqa: E402
from verse.map import Lane, StraightLane  # noqa: E402
from verse.scenario.scenario import ReachabilityMethod  # noqa: E402
from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType  # noqa: E402

import scen  # noqa: E402

try:
    import astunparse  # noqa: F401
except ImportError:
    # the installed astunparse needs a six that runs on an older Python; the library unparses expressions with it
    import ast
    sys.modules["astunparse"] = type(sys)("astunparse")
    sys.modules["astunparse"].unparse = ast.unparse

assert os.path.realpath(verse.__file__).startswith(os.path.realpath(REPO)), verse.__file__
OFF = 999999
TOL = 1e-6


class GridAgent(BaseAgent):
    """x' = x + vel(mode) [+ coupled variable] per sampling period, exactly."""

    def __init__(self, id, code, ag, nm, dt, unit=1.0):
        super().__init__(id, code)
        self.ag, self.dt, self.unit = ag, dt, unit
        self.midx = {n: i for i, n in enumerate(nm["modes"][0])}

    def TC_simulate(self, mode, initialSet, time_horizon, time_step, map=None):
        m = mode[0] if not isinstance(mode, str) else mode
        v = [self.unit * y for y in self.ag["vel"][self.midx[m]]]
        cpl = self.ag["cpl"]
        n = int(round(time_horizon / time_step))
        x = [float(z) for z in initialSet]
        rows = [[0.0] + x]
        for i in range(1, n + 1):
            x = [x[j] + v[j] + (x[cpl[j] - 1] if cpl[j] > 0 else -x[-cpl[j] - 1] if cpl[j] else 0) for j in range(len(x))]
            rows.append([round(i * time_step, 8)] + x)
        return np.array(rows)


class Linear(GridAgent):
    """The agent as the mixed-monotone engines want it: x' = f(x, w) with its decomposition, its Jacobian or its text"""

    def row(self, i, lo, hi, wlo):
        c = self.ag["cpl"][i]
        return lo[i] + self.unit * self.ag["vel"][0][i] + wlo[i] + (lo[c - 1] if c > 0 else -hi[-c - 1] if c else 0)

    def dynamics(self, x, args):
        return [self.row(i, x, x, args) for i in range(self.ag["nv"])]


class Decomposed(Linear):
    def decomposition(self, x, w, xhat, what, dt):
        return [self.row(i, x, xhat, w) for i in range(self.ag["nv"])]


class Flow(Linear):
    """in continuous time"""

    def decomposition(self, x, w, xhat, what):
        return [(self.unit * self.ag["vel"][0][i] + w[i]) / self.dt for i in range(self.ag["nv"])]


class Jacobian(Linear):
    def dynamics_jac(self, x, args):
        n = self.ag["nv"]
        J = np.zeros((n, 2 * n))
        for i, c in enumerate(self.ag["cpl"]):
            J[i, i] += 1
            J[i, n + i] += 1
            if c:
                J[i, abs(c) - 1] += 1 if c > 0 else -1
        return J


class Textual(GridAgent):
    @property
    def dynamics(self):
        import linecache
        n = range(self.ag["nv"])
        xs, ws = [f"x{i}" for i in n], [f"w{i}" for i in n]
        eq = [f"    {xs[i]}_plus = {xs[i]} + {self.unit * self.ag['vel'][0][i]!r} + w{i}" + ("" if not c else f" {'+' if c > 0 else '-'} x{abs(c) - 1}")
              for i, c in enumerate(self.ag["cpl"])]
        src = "\n".join(["def dynamics(x, args):", f"    {', '.join(ws)}, dt = args", f"    {', '.join(xs)}, = x", '    """Begin Dynamic"""', *eq,
                         '    """End Dynamic"""', f"    return [{', '.join(x + '_plus' for x in xs)}]", ""])
        f = f"<dynamics {hash(src)}>"
        linecache.cache[f] = (len(src), None, src.splitlines(True), f)
        d = {}
        exec(compile(src, f, "exec"), d)
        return d["dynamics"]


# how a verification computes its tubes: class of the agents, method, parameters of the run
ENGINES = {"pw": (GridAgent, "DRYVR", {}), "global": (GridAgent, "DRYVR", {"bloating_method": "GLOBAL"}), "disc": (GridAgent, "DRYVR_DISC", {}),
           "disc-global": (GridAgent, "DRYVR_DISC", {"bloating_method": "GLOBAL"}), "mix": (Decomposed, "MIXMONO_DISC", {}),
           "mix-jac": (Jacobian, "MIXMONO_DISC", {}), "mix-text": (Textual, "MIXMONO_DISC", {}), "mix-cont": (Flow, "MIXMONO_CONT", {})}


class PartialSensor(BaseSensor):
    """The agent's first variable is seen with an offset; other agents only within reach of it."""

    def __init__(self, off, reach):
        self.off, self.reach = off, reach

    def sense(self, agent, state_dict, lane_map, simulate=True):
        me = np.array(state_dict[agent.id][0], dtype=float)
        seen = {}
        for aid, st in state_dict.items():
            x = np.array(st[0], dtype=float)
            if aid == agent.id:
                y = x.copy()
                y[..., 1] += self.off
                seen[aid] = (y.tolist(), *st[1:])
                continue
            if simulate:
                gap = abs(x[1] - me[1])
            else:
                gap = max(0.0, x[0][1] - me[1][1], me[0][1] - x[1][1])
            if self.reach < 0 or gap <= self.reach:
                seen[aid] = st
        return super().sense(agent, seen, lane_map, simulate)


class TableMap(LaneMap):
    """Lane map given by an explicit table of permitted lane/mode changes."""

    def __init__(self, h, tracks, modes, lanes=()):
        super().__init__()
        for t, l in zip(tracks, lanes):
            if "of" in l:
                continue
            d, o = np.array([l["dx"], l["dy"]], dtype=float), np.array([l["x"], l["y"]], dtype=float)
            # the same straight line in one to three pieces
            cuts = [0] + sorted(l.get("cuts", [])) + [1600]
            self.add_lanes([Lane(t, [StraightLane(f"{t}_{i}", o + a * d, o + b * d, 4) for i, (a, b) in enumerate(zip(cuts, cuts[1:]))])])
        for t, row in enumerate(h):
            for a, r2 in enumerate(row):
                for b, v in enumerate(r2):
                    if v:
                        self.h_dict[(tracks[t], modes[a], modes[b])] = tracks[v - 1]


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(sec):
    late = []

    def on(_s, _f):
        late.append(1)
        raise Timeout()

    old = signal.signal(signal.SIGALRM, on)
    signal.alarm(sec)
    try:
        yield
    except Exception as e:
        # native code (z3) may have turned the timeout into an error of its own
        raise (Timeout() if late else e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def config(**kw):
    kw.setdefault("parallel", False)
    kw.setdefault("print_level", 0)
    return ScenarioConfig(**kw)


def build(case, cfg=None, srcs=None):
    sc = case["sc"]
    s = Scenario(cfg or config())
    if sc["h"]:
        nm = case["py"][0]
        s.set_map(TableMap(sc["h"], nm["modes"][1], nm["modes"][0], sc.get("lanes") or ()))
    if sc.get("off", 0) or sc.get("reach", -1) >= 0:
        s.set_sensor(PartialSensor(sc["off"] * scen.unit(case), sc["reach"] * scen.unit(case)))
    srcs = srcs or scen.sources(case)
    for ag, nm, src in zip(sc["ag"], case["py"], srcs):
        s.add_agent(make_agent(case, ag, nm, src))
    return s


def make_agent(case, ag, nm, src):
    if src is None:
        # no decision logic: built the way the library's own agents without one are
        from verse.parser.parser import ControllerIR
        cls = ENGINES[case.get("engine", "pw")][0]
        a = cls.__new__(cls)
        a.decision_logic = ControllerIR.empty()
        a.id, a.init_cont, a.init_disc = nm["id"], None, None
        a.static_parameters = a.uncertain_parameters = None
        a.ag, a.dt, a.unit = ag, case["dt"], scen.unit(case)
        a.midx = {n: i for i, n in enumerate(nm["modes"][0])}
        return a
    return ENGINES[case.get("engine", "pw")][0](nm["id"], src, ag, nm, case["dt"], scen.unit(case))


def mode_names(case, a, idx):
    nm = case["py"][a]
    return tuple(nm["modes"][i][k - 1] for i, k in enumerate(idx))


def set_init(case, s, box=True):
    inits, modes = [], []
    for a, ag in enumerate(case["sc"]["ag"]):
        lo = [scen.unit(case) * v for v in ag["init"]]
        hi = [scen.unit(case) * v for v in ag.get("hi", ag["init"])]
        inits.append([lo, hi])
        modes.append(mode_names(case, a, ag["mode"]))
    unc = [[[scen.unit(case) * v for v in ag[k]] for k in ("wlo", "whi")] for ag in case["sc"]["ag"] if "wlo" in ag]
    s.set_init(inits, modes, *([], unc) if unc else ())


def horizon(case):
    return round(case["sc"]["N"] * case["dt"], 10)


def maxh(case):
    h = case["sc"]["H"]
    return None if h >= 99 else h


# ---------------------------------------------------------------- projection
class Proj:
    def __init__(self, case):
        self.case, self.off, self.unit = case, 0, scen.unit(case)
        self.tol = 1e-3 if "global" in case.get("engine", "") else TOL
        self.ids = [p["id"] for p in case["py"]]
        self.mi = [[{n: i + 1 for i, n in enumerate(ms)} for ms in p["modes"]] for p in case["py"]]

    def num(self, v, unit=None):
        try:
            v = float(v) / (unit or self.unit)
        except (TypeError, ValueError):
            self.off = 1
            return OFF
        if v != v or abs(v) > 1e6:
            self.off = 1
            return OFF
        i = int(round(v))
        if abs(v - i) > self.tol * max(1, abs(v)):
            self.off = 1
            return OFF
        return i

    def time(self, t):
        return self.num(float(t) / self.case["dt"], 1)

    def modes(self, a, m):
        m = (m,) if isinstance(m, str) else tuple(m)
        out = []
        for j, d in enumerate(self.mi[a]):
            if j >= len(m):
                out.append(0)
                continue
            v = m[j]
            v = getattr(v, "name", v)
            out.append(d.get(v, 0))
        if len(m) != len(self.mi[a]):
            self.off = 1
        return out

    def labels(self, hits, aid):
        if not hits:
            return []
        ls = hits.get(aid) or []
        if isinstance(ls, str):
            ls = [ls]
        a = self.ids.index(aid)
        nolab = scen.nolab(self.case["sc"]["ag"][a], self.case["py"][a], self.case.get("deep", False)) or -1
        return [int(l[1:]) if isinstance(l, str) and l[:1] == "L" and l[1:].isdigit() else nolab if isinstance(l, str) and l[:7] == "<assert" else -1
                for l in ls]


def bfs(tree):
    order, par = [tree.root], {id(tree.root): 0}
    i = 0
    while i < len(order):
        n = order[i]
        i += 1
        for c in n.child:
            par[id(c)] = i
            order.append(c)
    return order, [par[id(n)] for n in order]


def project_sim(case, tree):
    nodes = []
    order, par = bfs(tree)
    for n, p in zip(order, par):
        pr = Proj(case)
        rec = {"id": int(n.id), "parent": p, "height": int(n.height), "start": pr.time(n.start_time),
               "type": str(n.type), "mode": [], "init": [], "trace": [], "hits": []}
        extra = set(n.trace) - set(pr.ids) | set(n.init) ^ set(pr.ids) | set(n.mode) ^ set(pr.ids)
        if extra:
            pr.off = 1
        for a, aid in enumerate(pr.ids):
            rec["mode"].append(pr.modes(a, n.mode[aid]))
            rec["init"].append([pr.num(v) for v in n.init[aid]])
            tr = n.trace.get(aid)
            rec["trace"].append([] if tr is None else
                                [[pr.time(r[0]), [pr.num(v) for v in r[1:]]] for r in np.asarray(tr).tolist()])
            rec["hits"].append(pr.labels(n.assert_hits, aid))
        rec["off"] = pr.off
        nodes.append(rec)
    return nodes


def run_sim(case, timeout=40, **cfg):
    """-> record dict with nodes or crash"""
    try:
        with quiet(), limit(timeout):
            s = build(case, config(unsafe_continue=bool(case["sc"].get("uc")), **cfg))
            set_init(case, s)
            t = (s.simulate_simple if case["sc"].get("direct") else s.simulate)(horizon(case), case["dt"], maxh(case))
            return {"nodes": project_sim(case, t), "crash": ""}
    except Timeout:
        return {"nodes": [], "crash": "timeout"}
    except BaseException as e:  # noqa: BLE001 - a crash of the library is an observation
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"nodes": [], "crash": crash_text(e)}


def project_ver(case, tree):
    """reachability tree -> records; trace rows come in (lower, upper) pairs"""
    nodes = []
    order, par = bfs(tree)
    for n, p in zip(order, par):
        pr = Proj(case)
        rec = {"id": int(n.id), "parent": p, "height": int(n.height), "start": pr.time(n.start_time),
               "type": str(n.type), "mode": [], "init": [], "trace": [], "hits": []}
        if set(n.trace) - set(pr.ids) | set(n.init) ^ set(pr.ids) | set(n.mode) ^ set(pr.ids):
            pr.off = 1
        for a, aid in enumerate(pr.ids):
            rec["mode"].append(pr.modes(a, n.mode[aid]))
            ini = np.asarray(n.init[aid], dtype=float)
            if ini.ndim == 2:
                ini = ini[None]
            rec["init"].append([[[pr.num(v) for v in b[0]], [pr.num(v) for v in b[1]]] for b in ini.tolist()])
            tr = n.trace.get(aid)
            if tr is None:
                rec["trace"].append([])
            else:
                rows = np.asarray(tr, dtype=float).tolist()
                if len(rows) % 2:
                    pr.off = 1
                rec["trace"].append([[pr.time(l[0]), [pr.num(v) for v in l[1:]], pr.time(u[0]), [pr.num(v) for v in u[1:]]]
                                     for l, u in zip(rows[::2], rows[1::2])])
            hits = n.assert_hits
            if isinstance(hits, tuple):
                hits = hits[0]
            rec["hits"].append(pr.labels(hits, aid))
        rec["off"] = pr.off
        nodes.append(rec)
    return nodes


def crash_text(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "/verse/" in f.filename]
    return f"{type(e).__name__}: {str(e)[:200]} @ {where[-1] if where else '?'}"


def run_ver(case, timeout=60, **cfg):
    try:
        with quiet(), limit(timeout):
            _, method, params = ENGINES[case.get("engine", "pw")]
            s = build(case, config(init_seg_length=case["sc"].get("seg", 1000), unsafe_continue=bool(case["sc"].get("uc")),
                                   reachability_method=getattr(ReachabilityMethod, method), **cfg))
            set_init(case, s)
            sc = case["sc"]
            if sc.get("part"):
                t = s.verify_partitioned(horizon(case), case["dt"], sc["part"], maxh(case), partition_initial=bool(sc["pinit"]),
                                         **({"partition_dims": list(sc["pdims"])} if case["pdims"] else {}))
            else:
                t = s.verify(horizon(case), case["dt"], maxh(case), **({"params": dict(params)} if params else {}))
            return {"nodes": project_ver(case, t), "crash": ""}
    except Timeout:
        return {"nodes": [], "crash": "timeout"}
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"nodes": [], "crash": crash_text(e)}


def relogic(case, s, prev=None, how="attr"):
    """Give the agents of s the decision logic of the case (where it differs from the previous case)."""
    from verse.parser.parser import ControllerIR
    srcs = scen.sources(case)
    old = scen.sources(prev) if prev else [None] * len(srcs)
    for ag, nm, src, o in zip(case["sc"]["ag"], case["py"], srcs, old):
        if src is None or src == o:
            continue
        s.agent_dict[nm["id"]].decision_logic = ControllerIR.parse(code=src)


def run_history(cases, kind, timeout=120, **cfg):
    """Run the cases one after another in ONE incremental scenario; one record per case."""
    out, prev, s = [], None, None
    for case in cases:
        sc = case["sc"]
        try:
            with quiet(), limit(timeout):
                if s is None:
                    s = build(case, config(incremental=True, init_seg_length=sc.get("seg", 1000),
                                           unsafe_continue=bool(sc.get("uc")), **cfg))
                else:
                    relogic(case, s, prev)
                set_init(case, s)
                if kind == "sim":
                    nodes = project_sim(case, s.simulate(horizon(case), case["dt"], maxh(case)))
                else:
                    nodes = project_ver(case, s.verify(horizon(case), case["dt"], maxh(case)))
            rec = {"nodes": nodes, "crash": ""}
        except Timeout:
            rec = {"nodes": [], "crash": "timeout"}
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, KeyboardInterrupt):
                raise
            rec = {"nodes": [], "crash": crash_text(e)}
        out.append((case, rec))
        prev = case
        if rec["crash"]:
            break
    return out


def run_mixed(hists, order, timeout=120):
    """Several scenarios, each with its own history of cases and kinds of runs, interleaved as `order` says.
    All trees are looked at only after the last run."""
    scn, prev, cfgs, held, out = {}, {}, {}, [], []
    for h, j in order:
        case, kind = hists[h][j]
        sc = case["sc"]
        rec = None
        want = {"init_seg_length": sc.get("seg", 1000), "unsafe_continue": bool(sc.get("uc"))}
        try:
            with quiet(), limit(timeout):
                if h not in scn:
                    scn[h] = build(case, config(**want))
                else:
                    if want != cfgs[h]:
                        scn[h].update_config(config(**want))
                    relogic(case, scn[h], prev[h])
                cfgs[h] = want
                set_init(case, scn[h])
                s = scn[h]
                f = {"sim": s.simulate, "ver": s.verify, "direct": s.simulate_simple}[kind]
                held.append((case, kind, f(horizon(case), case["dt"], maxh(case))))
        except Timeout:
            rec = {"nodes": [], "crash": "timeout"}
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, KeyboardInterrupt):
                raise
            rec = {"nodes": [], "crash": crash_text(e)}
        prev[h] = case
        if rec:
            out.append((case, kind, rec))
            break
    for case, kind, t in held:
        try:
            out.append((case, kind, {"nodes": project_ver(case, t) if kind == "ver" else project_sim(case, t), "crash": ""}))
        except BaseException as e:  # noqa: BLE001
            out.append((case, kind, {"nodes": [], "crash": crash_text(e)}))
    return out
