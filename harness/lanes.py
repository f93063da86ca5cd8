"""Road geometry of the lane maps, judged by spec/Lanes: random lanes of straight pieces and
arcs, positions and sets of positions on and around them."""
import enum, math, os, random

import core, real, treeops
from real import BaseAgent, Lane, LaneMap, StraightLane, np
from verse.map import CircularLane

SIN = [round(10000 * math.sin(math.radians(d))) for d in range(91)]


class Still(BaseAgent):
    """An agent that stays where it is."""

    def TC_simulate(self, mode, init, time_horizon, time_step, map=None):
        n = int(round(time_horizon / time_step))
        return np.array([[round(i * time_step, 8)] + [float(v) for v in init] for i in range(n + 1)])


class FreeMap(LaneMap):
    """Every mode change keeps the track."""

    def h(self, lane_idx, src, dst):
        return lane_idx


def gen_lane(r):
    d = r.choice([0, 90, 180, 270]) if r.random() < 0.6 else r.randrange(0, 360, 15)
    ln = {"x": r.randrange(-40, 41) * 100, "y": r.randrange(-40, 41) * 100, "d": d, "segs": []}
    shape = r.random()
    if shape < 0.2:      # there and back
        sg = r.choice([1, -1])
        ln["segs"] = [{"k": "S", "len": r.randrange(10, 40) * 100, "r": 0, "sweep": 0, "sg": 0},
                      {"k": "C", "len": 0, "r": r.randrange(3, 10) * 100, "sweep": 180, "sg": sg},
                      {"k": "S", "len": r.randrange(10, 40) * 100, "r": 0, "sweep": 0, "sg": 0}]
    else:
        last = None
        for _ in range(r.randint(1, 4)):
            k = r.choice("SC") if last != "C" or r.random() < 0.3 else "S"
            if k == "S":
                ln["segs"].append({"k": "S", "len": r.randrange(4, 36) * 100, "r": 0, "sweep": 0, "sg": 0})
            else:
                ln["segs"].append({"k": "C", "len": 0, "r": r.randrange(5, 25) * 100, "sweep": r.choice([30, 45, 60, 90, 90, 90, 120, 135]), "sg": r.choice([1, -1])})
            last = k
    return ln


def pieces(ln, name, width):
    """the lane as the library's segments, and its pose functions in exact terms"""
    x, y, d = ln["x"] / 100, ln["y"] / 100, math.radians(ln["d"])
    out = []
    for k, s in enumerate(ln["segs"]):
        if s["k"] == "S":
            L = s["len"] / 100
            nx, ny = x + L * math.cos(d), y + L * math.sin(d)
            out.append(StraightLane(f"{name}_{k}", [x, y], [nx, ny], width))
            x, y = nx, ny
        else:
            R, sw, sg = s["r"] / 100, math.radians(s["sweep"]), s["sg"]
            cx, cy = x - sg * R * math.sin(d), y + sg * R * math.cos(d)
            ph = d - sg * math.pi / 2
            out.append(CircularLane(f"{name}_{k}", [cx, cy], R, ph, ph + sg * sw, sg < 0, width))
            x, y, d = cx + R * math.cos(ph + sg * sw), cy + R * math.sin(ph + sg * sw), d + sg * sw
    return out


def c100(v):
    return int(round(float(v) * 100))


def cdeg(v):
    a = int(round(math.degrees(float(v)) * 100)) % 36000
    return a - 36000 if a >= 18000 else a


def tried(f):
    try:
        return f(), ""
    except Exception as e:  # noqa: BLE001
        return None, type(e).__name__


def scenario(src, agent, mp):
    s = real.Scenario(real.config())
    with real.quiet():
        s.set_map(mp)
        s.add_agent(agent)
    return s


def logic(gs, tracks):
    n = ["from enum import Enum, auto", "import copy", "from verse.map import LaneMap", "class AgentMode(Enum):"]
    n += [f"    M{i} = auto()" for i in range(len(gs) + 1)]
    n += ["class TrackMode(Enum):"] + [f"    {t} = auto()" for t in tracks]
    n += ["class State:", "    x: float", "    y: float", "    agent_mode: AgentMode", "    track_mode: TrackMode",
          "    def __init__(self, x, y, agent_mode: AgentMode, track_mode: TrackMode):", "        pass",
          "def decisionLogic(ego: State, track_map):", "    output = copy.deepcopy(ego)",
          "    if ego.agent_mode == AgentMode.M0:"]
    fn = {"lon": "get_longitudinal_position", "lat": "get_lateral_distance"}
    for i, g in enumerate(gs):
        cond = " and ".join(f"track_map.{fn[t['v']]}(ego.track_mode, [ego.x, ego.y]) {t['op']} {t['c'] / 100}" for t in g)
        n += [f"        if {cond}:", f"            output.agent_mode = AgentMode.M{i + 1}"]
    return "\n".join(n + ["    return output", ""])


def job(args):
    i, key = args
    r = random.Random(f"{key}/{i}")
    nl = r.randint(1, 3)
    lanes = [gen_lane(r) for _ in range(nl)]
    naming = r.choice(["T", "X"])
    names = [f"T{k}" if naming == "T" else f"NS_{k}" for k in range(nl)]
    virt = [f"M{k}{(k + 1) % 10}" if naming == "T" else f"NS_{k}_{k + 1}" for k in range(nl)]
    width = r.choice([2, 3, 4])
    segs = [pieces(ln, nm, width) for ln, nm in zip(lanes, names)]
    if r.random() < 0.4:
        segs = [[type(s).from_config(s.to_config()["config"]) for s in ss] for ss in segs]
    if r.random() < 0.3:      # a lane that shares its first pieces with another one
        k = r.randrange(nl)
        tail = pieces(dict(lanes[k], segs=lanes[k]["segs"][:r.randint(1, len(lanes[k]["segs"]))]), "Z", width)
        lanes.append(dict(lanes[k], segs=lanes[k]["segs"][:len(tail)]))
        segs.append(segs[k][:len(tail)])
        names.append("T9" if naming == "T" else "NS_9")
        virt.append("M98" if naming == "T" else "NS_9_8")
    elif r.random() < 0.3 and len(lanes[0]["segs"]) > 1:      # or the last ones
        k = 0
        cut = r.randint(1, len(lanes[k]["segs"]) - 1)
        first = pieces(dict(lanes[k], segs=lanes[k]["segs"][:cut]), "Z", width)
        s0 = segs[k][cut]
        head = 0
        d = lanes[k]["d"] + sum(s["sg"] * s["sweep"] for s in lanes[k]["segs"][:cut])
        p = s0.position(0, 0)
        L = r.randrange(6, 30)
        a = math.radians(d)
        st = [p[0] - L * math.cos(a), p[1] - L * math.sin(a)]
        lanes.append({"x": c100(st[0]), "y": c100(st[1]), "d": d % 360, "segs": [{"k": "S", "len": L * 100, "r": 0, "sweep": 0, "sg": 0}] + lanes[k]["segs"][cut:]})
        segs.append([StraightLane("in", st, list(p), width)] + segs[k][cut:])
        names.append("T9" if naming == "T" else "NS_9")
        virt.append("M98" if naming == "T" else "NS_9_8")
    mp = FreeMap()
    mp.add_lanes([Lane(nm, ss) for nm, ss in zip(names, segs)])
    tm = enum.Enum("TrackMode", names + virt)
    obs = []

    def near(k):
        """a position around lane k"""
        s = r.choice(segs[k])
        lon = r.uniform(-4, float(s.length) + 2) if r.random() < 0.7 else r.choice([0.0, float(s.length), float(s.length) / 2])
        lat = r.choice([0.0, r.uniform(-2, 2), r.uniform(-8, 8), r.uniform(-30, 30)])
        p = s.position(lon, lat)
        return c100(p[0]), c100(p[1])

    for _ in range(14):
        k = r.randrange(len(names))
        x, y = near(k)
        if max(abs(x), abs(y)) > 15000:
            continue
        p = np.array([x / 100, y / 100])
        o = {"k": "pt", "lane": k + 1, "x": x, "y": y}

        def ask(nm, pp):
            return mp.get_longitudinal_position(nm, pp), mp.get_lateral_distance(nm, pp), mp.get_lane_heading(nm, pp)

        v, o["err"] = tried(lambda: ask(names[k], p))
        if v:
            o["lon"], o["lat"], o["hd"] = c100(v[0]), c100(v[1]), cdeg(v[2])
            seg = mp.get_lane_segment(names[k], p)
            o["i"] = 1 + [q is seg for q in segs[k]].index(True)
            b = seg.position(*seg.local_coordinates(p))
            o["bx"], o["by"] = c100(b[0]), c100(b[1])
            alias = r.choice([virt[k], tm[virt[k]], tm[names[k]], names[k]])
            w, err = tried(lambda: ask(alias, [x / 100, y / 100]))
            o["plon"], o["plat"], o["phd"] = (c100(w[0]), c100(w[1]), cdeg(w[2])) if w else (99999, 99999, 99999)
        obs.append(o)
    for _ in range(5):
        k = r.randrange(len(names))
        j = r.randrange(len(segs[k]))
        s = segs[k][j]
        lon, lat = r.randrange(-300, max(1, c100(s.length))), r.randrange(-300, 301)
        p = s.position(lon / 100, lat / 100)
        obs.append({"k": "world", "lane": k + 1, "i": j + 1, "lon": lon, "lat": lat, "x": c100(p[0]), "y": c100(p[1]), "w": c100(width),
                    "wd": c100(mp.get_lane_width(r.choice([names[k], virt[k], tm[virt[k]]])))})
    for _ in range(2):
        k = r.randrange(len(names))
        x, y = near(k)
        if max(abs(x), abs(y)) > 14000:
            continue
        point = r.random() < 0.3
        size = 0 if point else r.choice([1, 2, 4, 8])
        wx, wy = (0, 0) if point else (r.randint(0, size) * 100, r.randint(0, size) * 100)
        lo, hi = [x, y], [x + wx, y + wy]
        # thresholds around the values that occur in the set
        vals = []
        for _j in range(6):
            q = np.array([r.uniform(lo[0], hi[0]) / 100, r.uniform(lo[1], hi[1]) / 100])
            v, err = tried(lambda: (mp.get_longitudinal_position(names[k], q), mp.get_lateral_distance(names[k], q)))
            if v:
                vals.append(v)
        if not vals:
            continue
        gs = []
        for _j in range(5):
            g = []
            for var in (["lon"], ["lat"], ["lon", "lat"])[r.randrange(3)]:
                v = r.choice(vals)[var == "lat"]
                g.append({"v": var, "op": r.choice([">", "<", ">=", "<="]), "c": c100(v + r.choice([0, 0.3, -0.3, 1, -1, r.uniform(-6, 6)]))})
            gs.append(g)
        src = logic(gs, names + virt)
        T = r.choice([names[k], virt[k]])
        agent = Still("a", src)
        simulated = point and r.random() < 0.5
        o = {"k": "box", "lane": k + 1, "lo": lo, "hi": hi, "gs": gs, "hits": [], "n": 8, "slack": 2 * Bound(wx, wy), "sim": int(simulated)}

        def run():
            s = scenario(src, agent, mp)
            with real.quiet(), real.limit(30):
                s.set_init_single("a", [[v / 100 for v in lo], [v / 100 for v in hi]], (enum.Enum("AgentMode", ["M0"]).M0, tm[T]))
                t = s.simulate(1.0, 0.5) if simulated else s.verify(1.0, 0.5)
            return sorted({int(str(getattr(c.mode["a"][0], "name", c.mode["a"][0]))[1:]) for c in t.root.child})

        hits, o["err"] = tried(run)
        if hits is not None:
            o["hits"] = hits
        obs.append(o)
    return {"id": i, "sin": SIN, "lanes": lanes, "obs": obs}


def Bound(wx, wy):
    """twice the distance between neighbouring grid positions of a set, and something for rounding"""
    return 2 * (max(wx, wy) // 8) + 12


def safe_job(a):
    try:
        return job(a)
    except real.Timeout:
        return None
    except Exception as e:  # noqa: BLE001
        text = real.crash_text(e)
        if text.endswith("@ ?"):
            raise
        return {"id": a[0], "crash": text}


def stage(ctx, name, n):
    key = f"{ctx.seed}/{name}"
    ctx.later(safe_job, [(i + 1, key) for i in range(n)], lambda recs: treeops.check(ctx, name, "Lanes", recs), chunk=8)
