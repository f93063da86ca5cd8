"""The lane-change tables of the road maps that come with the library, judged by spec/MapTables."""
import enum

import real, treeops
from real import np
from verse.utils.utils import wrap_to_pi
from verse.map.example_map import intersection, map_tacas, simple_map2, simple_map_3d

TWO = {"Normal": 0, "Brake": 0, "Accel": 0, "Stop": 0, "SwitchLeft": 1, "SwitchRight": -1}
TWO2 = dict(TWO, SwitchLeft2=2, SwitchRight2=-2)
UP = {"Normal": 0, "MoveUp": 1, "MoveDown": -1}


def all_maps():
    for n in ("SimpleMap3", "SimpleMap4", "SimpleMap6"):
        yield n, getattr(simple_map2, n), TWO, 2, True
    yield "SimpleMap4Switch2", simple_map2.SimpleMap4Switch2, TWO2, 2, False
    for n in ("M1", "M2", "M3"):
        yield n, getattr(map_tacas, n), TWO, 2, True
    for n in ("M5", "M6"):
        yield n, getattr(map_tacas, n), UP, 3, True
    for n in ("SimpleMap6", "SimpleMap7"):
        yield "3d." + n, getattr(simple_map_3d, n), UP, 3, False
    yield "3d.SimpleMap1", simple_map_3d.SimpleMap1, None, 3, False
    for k in (1, 2, 3, 4):
        for w in (3, 4):
            yield f"Intersection{k}x{w}", (lambda k=k, w=w: intersection.Intersection(width=w, size=6 * w, length=100, lanes=k)), TWO, 2, False


def offsets(mp, dim, rel=None):
    """off[a][b]: by how many lane distances b lies to the left of (above) a; 99: not beside it"""
    names = list(mp.lane_dict)
    off = {}
    for a in names:
        off[a] = {}
        for b in names:
            if dim == 3:
                sa, sb = (mp.lane_dict[x].segment_list[0] for x in (a, b))
                pa, pb = ((np.array(s.start) if hasattr(s, "start") else np.array(s.center)) for s in (sa, sb))
                d = (pb - pa) / (2 * sa.width)
                if rel is not None:      # sideways and vertical neighbours: 10 * left + up
                    k = np.round(d).astype(int)
                    off[a][b] = int(10 * k[1] + k[2]) if np.allclose(d, k) and k[0] == 0 else 99
                else:
                    k = int(round(d[2]))
                    off[a][b] = k if np.allclose(d, [0, 0, k]) else 99
                continue
            sa, sb = mp.lane_dict[a].segment_list, mp.lane_dict[b].segment_list
            w = sa[0].width
            ks = set()
            if len(sa) != len(sb) or a.split("_")[0][:2] != b.split("_")[0][:2] and "_" in a:
                off[a][b] = 99
                continue
            for s, t in zip(sa, sb):      # all along the lane
                for f in (0.1, 0.5, 0.9):
                    lon, lat = s.local_coordinates(t.position(f * float(t.length), 0))
                    ks.add(round(float(lat) / w, 6))
            k = ks.pop() if len(ks) == 1 else 99
            off[a][b] = int(k) if k == int(k) else 99
    return off


def side(p):
    if abs(p[0]) > abs(p[1]):
        return "E" if p[0] > 0 else "W"
    return "N" if p[1] > 0 else "S"


def job(args):
    i, (name, make, sw, dim, enums) = args
    mp = make()
    rec = {"id": i, "name": name, "lanes": sorted(mp.lane_dict), "normal": "Normal", "q": [], "pairs": [], "sw": sw or {"Normal": 0}}
    rec["off"] = offsets(mp, dim, rel=None if sw else 1)
    rel = {"left": (mp.left_lane_dict, 10 if sw is None else 1), "right": (mp.right_lane_dict, -10 if sw is None else -1)}
    if dim == 3:
        rel.update(up=(mp.up_lane_dict, 1), down=(mp.down_lane_dict, -1))
        if sw is not None:
            del rel["left"], rel["right"]
    for nm, (d, by) in rel.items():
        for a in sorted(d):
            for b in d[a]:
                has = bool(getattr(mp, "has_" + nm)(a)) and getattr(mp, nm + "_lane")(a) == b if dim == 3 else True
                rec["pairs"].append({"a": a, "b": b, "by": by, "rel": nm, "has": has})
    if dim == 2 and hasattr(mp, "left_dict"):
        for nm, by in (("left", 1), ("right", -1)):
            for a, b in getattr(mp, nm + "_dict").items():
                rec["pairs"].append({"a": a, "b": b, "by": by, "rel": nm, "has": getattr(mp, nm + "_lane")(a) == b})
    rec["joins"], rec["ends"] = [], []
    if dim == 2:
        for a in sorted(mp.lane_dict):
            ss = mp.lane_dict[a].segment_list
            for s, t in zip(ss, ss[1:]):
                turn = abs(wrap_to_pi(float(s.heading_at(s.length)) - float(t.heading_at(0))))
                rec["joins"].append({"gap": int(100 * np.linalg.norm(s.position(s.length, 0) - t.position(0, 0)) + 0.5), "turn": int(100 * turn + 0.5)})
            if "_" in a:
                rec["ends"].append({"name": a.split("_")[0], "is": side(ss[0].position(0, 0)) + side(ss[-1].position(ss[-1].length, 0))})
    rec["phys"] = {a: a for a in mp.lane_dict}
    if sw is None:
        return rec
    modes = sorted(sw)
    virt = {k[0] for k in getattr(mp, "h_dict", {})} - set(mp.lane_dict)
    for a in sorted(mp.lane_dict):
        for d in modes:
            v = mp.h(a, "Normal", d)
            if v is not None and v not in mp.lane_dict:
                virt.add(v)
    me = enum.Enum("Mode", modes)
    te = enum.Enum("Track", sorted(mp.lane_dict) + sorted(virt))

    def ask(a, s, d):
        try:
            r = mp.h(a, s, d)
            return str(r), bool(mp.h_exist(a, s, d))
        except Exception as e:  # noqa: BLE001
            return type(e).__name__, True

    if dim == 2:
        rec["phys"].update({v: mp.get_phys_lane(v) for v in virt})
        rec["phys"].update({v: (rec["phys"][v] if mp.get_phys_lane(te[v]) == rec["phys"][v] else "?") for v in virt})
    else:
        rec["phys"].update({v: "T" + v[1] for v in virt})
    for a in sorted(mp.lane_dict) + sorted(virt):
        for s in modes:
            if (sw[s] != 0) != (a in virt):
                continue      # the mode does not fit the lane
            for d in modes:
                if a in virt and mp.h(rec["phys"][a], "Normal", s) != a:
                    continue
                r, ex = ask(a, s, d)
                r2, ex2 = ask(te[a], me[s], me[d]) if enums else (r, ex)
                rec["q"].append({"a": a, "s": s, "d": d, "r": r, "ex": ex, "r2": r2, "ex2": ex2})
    for a in sorted(virt):      # where the virtual lane says it leads
        if dim == 3 and mp.trans_func(a) not in mp.lane_dict:
            rec["phys"][a] = "?"
    return rec


def safe_job(a):
    try:
        return job(a)
    except Exception as e:  # noqa: BLE001
        text = real.crash_text(e)
        if text.endswith("@ ?"):
            raise
        return {"id": a[0], "crash": text}


def stage(ctx, name):
    recs = [safe_job((i + 1, m)) for i, m in enumerate(all_maps())]
    treeops.check(ctx, name, "MapTables", recs)
