"""Trajectories of the agents that come with the library, judged by spec/Agents."""
import math, random

import real, treeops
from real import Lane, LaneMap, StraightLane, np
from verse.agents.example_agent import ball_agent, car_agent, line_agent, origin_agent, robot_agent, sign_agent


CODE = """from enum import Enum, auto
import copy
class CarMode(Enum):
    Normal = auto()
class State:
    x: float
    car_mode: CarMode
    def __init__(self, x, car_mode: CarMode):
        pass
def decisionLogic(ego: State):
    output = copy.deepcopy(ego)
    if ego.x > 100:
        output.car_mode = CarMode.Normal
    return output
"""


def u(v):
    return int(round(float(v) * 10 ** 6))


def eighth(r, lo, hi):
    return r.randint(lo * 8, hi * 8) / 8


def job(args):
    i, key = args
    r = random.Random(f"{key}/{i}")
    dt = r.choice([0.1, 0.05, 0.2, 0.25, 0.5, 0.01, 0.125])
    n = r.choice([1, 2, 3, 7, 11, r.randint(1, 40)])
    rec = {"id": i, "dt": int(round(dt * 1000)), "v": 0}
    kind = r.choice(["ball", "line", "robot", "sign", "thermo", "vdp", "craft", "npc", "car", "car", "car5", "car2", "follow", "follow"])
    mode, mp = [r.choice(["none", "Normal"])], None
    with real.quiet():
        if kind == "ball":
            ag, init, k = ball_agent.BallAgent("a", CODE), [eighth(r, -20, 20) for _ in range(4)], "ball"
        elif kind == "line":
            ag, init, k = line_agent.LineAgent("a", CODE), [eighth(r, -20, 20) for _ in range(2)], "line"
        elif kind == "robot":
            ag, init, k = robot_agent.RobotAgent("a", CODE), [eighth(r, -20, 20)], "robot"
        elif kind == "sign":
            ag, init, k = sign_agent.SignAgent("a"), [eighth(r, -20, 20) for _ in range(r.randint(1, 4))], "sign"
        elif kind == "thermo":
            mode = [r.choice(["ON", "OFF"])]
            ag, init, k = origin_agent.thermo_agent("a", CODE), [eighth(r, 40, 100), eighth(r, 0, 9), eighth(r, 0, 9)], "thermo"
            rec["rate"] = 1 if mode[0] == "ON" else -1
            n = min(n, 20)
        elif kind == "vdp":
            ag, init, k = origin_agent.vanderpol_agent("a", CODE), [eighth(r, -3, 3), eighth(r, -3, 3)], "parts"
        elif kind == "craft":
            mode = [r.choice(["ProxA", "ProxB", "Passive"])]
            ag, k = origin_agent.craft_agent("a", CODE), "timed"
            init = [eighth(r, -90, -60), eighth(r, -40, 40), 0.0, 0.0, eighth(r, 0, 9), eighth(r, 0, 9)]
            rec["tv"], rec["tv2"] = 6, 7
        else:
            quarter = r.randrange(4)
            dx, dy = [(1, 0), (0, 1), (-1, 0), (0, -1)][quarter]
            ox, oy = eighth(r, -20, 20), eighth(r, -20, 20)
            w = r.choice([3, 4])
            mp = LaneMap()
            mp.add_lanes([Lane("T1", [StraightLane("s", [ox, oy], [ox + 400 * dx, oy + 400 * dy], w)])])
            lane = r.choice(["T1", "M12", "M10"])
            rec.update(dir=[dx, dy], ox=u(ox), oy=u(oy))
            v, lon = r.randint(8, 48) / 8, eighth(r, 1, 20)
            extra = [eighth(r, 0, 9)] if kind in ("car5", "car2") else []
            theta = quarter * math.pi / 2 + r.choice([0, 0, 0, 2, -2]) * math.pi
            m = r.choice(["Normal", "Brake", "Accel"] + ([] if kind == "car2" else ["Stop"]))
            lat, k = 0.0, "car"
            ac, sp = r.choice([0.5, 1, 2]), r.choice([2, 4, 6])
            if kind == "follow":
                k = "follow"
                cls = r.choice(["npc", "car", "car2", "car5"])
                m = r.choice({"npc": ["Normal"], "car": ["Normal", "SwitchLeft", "SwitchRight"], "car5": ["Normal", "SwitchLeft", "SwitchRight"],
                              "car2": ["Normal", "SwitchLeft", "SwitchRight", "SwitchLeft2", "SwitchRight2"]}[cls])
                lat = r.choice([0, eighth(r, -6, 6)])
                dt = r.choice([0.1, 0.2, 0.25])
                rec["dt"], n = int(round(dt * 1000)), int(24 / dt)
                rec["goal"] = u({"SwitchLeft": w, "SwitchRight": -w, "SwitchLeft2": 2 * w, "SwitchRight2": -2 * w}.get(m, 0))
                extra = [0.0] if cls in ("car2", "car5") else []
                theta = quarter * math.pi / 2
            else:
                cls = kind
            if cls == "npc":
                ag, m = car_agent.NPCAgent("a"), r.choice(["Normal", "Brake"])
                rec["mode"] = "Normal"
            else:
                ag = {"car": car_agent.CarAgent, "car5": car_agent.CarAgentDebounced, "car2": car_agent.CarAgentSwitch2}[cls]("a", CODE, speed=sp, accel=ac)
                rec["mode"] = m
                if m == "Accel" and v > sp:
                    v = float(sp)
            mode = [m, lane]
            init = [ox + lon * dx - lat * dy, oy + lon * dy + lat * dx, theta, v] + extra
            rec.update(accel=u(ac), speed=u(sp))
    rec.update(kind=k, agent=type(ag).__name__)
    if k == "parts":
        rec.update(kind="timed", tv=1, tv2=0)
    rec["T"] = rec["dt"] * n
    init = [float(x) for x in init]
    given, gmode = list(init), list(mode)
    with real.quiet():
        tr = np.asarray(ag.TC_simulate(mode, init, n * dt if r.random() < 0.5 else round(n * dt, 6), dt, mp))
    rec["rows"] = [[u(x) for x in row] for row in tr]
    rec["init"] = [u(x) for x in given]
    rec["kept"] = init == given and mode == gmode
    rec["parts"] = []
    if n > 1 and r.random() < 0.6:
        cut = r.randint(1, n - 1)
        with real.quiet():
            a = np.asarray(ag.TC_simulate(mode, list(given), round(cut * dt, 6), dt, mp))
            b = np.asarray(ag.TC_simulate(mode, a[-1][1:].tolist(), round((n - cut) * dt, 6), dt, mp))
        b[:, 0] += a[-1][0]
        rec["parts"] = [[u(x) for x in row] for row in list(a[:-1]) + list(b)]
    return rec


def safe_job(a):
    try:
        return job(a)
    except Exception as e:  # noqa: BLE001
        text = real.crash_text(e)
        if text.endswith("@ ?"):
            raise
        return {"id": a[0], "crash": text}


def stage(ctx, name, n):
    key = f"{ctx.seed}/{name}"
    ctx.later(safe_job, [(i + 1, key) for i in range(n)], lambda recs: treeops.check(ctx, name, "Agents", recs), chunk=8)
