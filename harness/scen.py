"""Random scenarios: integer dynamics, decision-logic ASTs, their Python rendering,
and their construction as real Verse scenarios."""
import random
import re

# ---------------------------------------------------------------- rendering
VAR_POOLS = [["x", "y", "z"], ["x", "xx", "x1"], ["px", "pxv", "v"], ["pos", "vel", "posvel"], ["a", "ab", "b"]]
DISC_POOLS = [["mode", "mode2"], ["agent_mode", "mode"], ["fmode", "fmode_b"], ["mode_a", "mode_ab"]]
MODE_POOLS = [["Normal", "Brake", "Accel"], ["A", "AB", "B"], ["Up", "UpDown", "Down"], ["M0", "M00", "M1"]]
MODE2_POOLS = [["P", "Q", "R"], ["On", "Off", "Idle"]]
ID_POOLS = [["car1", "car2", "car3"], ["a", "ab", "b"], ["ego", "others", "x"], ["z", "m", "c"]]


def labels_in(ss):
    return [s["lab"] for s in ss if s["k"] == "assert"] + [l for s in ss if s["k"] == "if" for l in labels_in(s["t"]) + labels_in(s["f"])]


def nolab(ag, names, deep):
    """the assertion that is written without a message, if any"""
    labs, n = labels_in(ag["prog"]), names["rs"]
    return labs[n // 10 % len(labs)] if deep and labs and n % 10 < 4 else 0


def only_asserts(ss):
    return bool(ss) and all(s["k"] == "assert" or (s["k"] == "if" and only_asserts(s["t"] + s["f"])) for s in ss)


class Renderer:
    """Turns the AST of one agent into Python source.  `r` only picks between equivalent spellings."""

    def __init__(self, ag, names, r, sugar=True, deep=False, unit=1):
        self.ag, self.nm, self.r, self.sugar, self.deep, self.unit = ag, names, r, sugar, deep, unit
        self.funcs, self.locals, self.nf = [], [], 0
        self.ego, self.o, self.pre = "ego", None, None
        self.oth, self.tm = "others", "track_map"
        self.memo, self.consts = {}, {}
        self.nolab = nolab(ag, names, deep)

    def hoist(self, text):
        """name of a new local that holds the value of `text`"""
        n = self.r.choice(["t", "v", "val_", "o", "x"]) + str(self.nf)
        self.nf += 1
        self.pre.append(f"{n} = {text}")
        return n

    def can_hoist(self, p=0.2):
        return self.deep and self.pre is not None and self.o is None and self.r.random() < p

    def wrap(self, e, render, inner):
        """`render(e)` moved into a helper function or a lambda with its own parameter names"""
        pool = ["a", "b", "first", "second", "ego", "other", "x", "others", "car", "track_map", self.out]
        p, q, t, u = self.r.sample(pool, 4)
        saved = self.ego, self.o, self.pre, self.oth, self.tm
        self.ego, self.o, self.oth, self.tm, self.pre = p, (q if inner else None), t, u, None
        body = render(e)
        used = {n for n in (p, t, u) if re.search(rf"(?<![\w.]){n}\b", body)} | {p} | ({q} if inner else set())
        self.ego, self.o, self.pre, self.oth, self.tm = saved
        args = [x for x in ((p, self.ego), (q, self.o), (t, self.oth), (u, self.tm)) if x[0] in used]
        self.r.shuffle(args)
        key = (body, p, q if inner else None, t if t in used else None, u if u in used else None)
        if key in self.memo:
            # the same text in another helper means the same for the arguments in these roles
            n, ps = self.memo[key]
            d = dict(args)
            return f"{n}({', '.join(d[x] for x in ps)})"
        n = f"helper{self.nf}"
        self.nf += 1
        ps = [x[0] for x in args]
        if self.pre is not None and self.r.random() < 0.4:
            self.pre.append(f"{n} = lambda {', '.join(ps)}: {body}")
        else:
            if self.r.random() < 0.5:
                self.funcs.append(f"def {n}({', '.join(ps)}):\n    return {body}\n")
            else:
                self.funcs.append(f"{n} = lambda {', '.join(ps)}: {body}\n")
            self.memo[key] = n, ps
        return f"{n}({', '.join(x[1] for x in args)})"

    def once(self, render, e, inner=False):
        """moved into a helper, which may call other helpers"""
        self.deep, was = self.deep if self.ego == "ego" and self.r.random() < 0.3 else False, self.deep
        t = self.wrap(e, render, inner)
        self.deep = was
        return t

    def assert_helper(self, ss):
        """assertions (with their conditions) in a function of their own"""
        p, t, u = self.r.sample(["a", "b", "ego", "me", "others", "all_", "track_map", "m"], 3)
        saved = self.ego, self.pre, self.oth, self.tm, self.deep
        self.ego, self.oth, self.tm, self.pre, self.deep = p, t, u, None, False
        self.inhelper = True
        out = []
        for s in ss:
            self.stmt(s, 1, out)
        self.inhelper = False
        self.ego, self.pre, self.oth, self.tm, self.deep = saved
        body = "\n".join(out)
        args = [x for x in ((p, self.ego), (t, self.oth), (u, self.tm)) if x[0] == p or re.search(rf"(?<![\w.]){x[0]}\b", body)]
        self.r.shuffle(args)
        n = f"check{self.nf}"
        self.nf += 1
        self.funcs.append(f"def {n}({', '.join(x[0] for x in args)}):\n{body}\n    return True\n")
        return f"ok{self.nf} = {n}({', '.join(x[1] for x in args)})"

    def a(self, e):
        k = e["k"]
        if k in "+-*" and self.can_hoist():
            self.deep = False
            t = self.a(e)
            self.deep = True
            return self.hoist(t)
        if k in "+-*" and self.deep and self.r.random() < 0.15:
            return self.once(self.a, e, self.o is not None)
        if k == "c":
            n = e["n"] if self.unit == 1 else int(e["n"] * self.unit) if self.unit > 1 else e["n"] * self.unit
            if self.deep and self.r.random() < 0.15:
                if n not in self.consts:
                    self.consts[n] = f"K{len(self.consts)}"
                return self.consts[n]
            if self.deep and self.r.random() < 0.3:
                return self.r.choice([f"{n}.0" if isinstance(n, int) else f"{n}", f"({n - 3} + 3)", f"-({-n})"])
            return str(n)
        if k == "v":
            return f"{self.ego if e['w'] == 'e' else self.o}.{self.nm['cont'][e['i'] - 1]}"
        if k in "+-":
            return f"({self.a(e['l'])} {k} {self.a(e['r'])})"
        if k == "*":
            return f"{e['n']} * {self.a(e['r'])}"
        if k == "lc":
            nm, who, on = self.nm, self.ego if e["w"] == "e" else self.o, self.ego if e["tw"] == "e" else self.o
            t = f"{on}.{nm['disc'][e['t'] - 1]}"
            if e["hn"]:
                t = f"{self.tm}.h({t}, {on}.{nm['disc'][e['i'] - 1]}, {self.mname(e['i'], e['hn'])})"
            f = ["get_longitudinal_position", "get_lateral_distance"][e["c"]]
            return f"{self.tm}.{f}({t}, [{who}.{nm['cont'][0]}, {who}.{nm['cont'][1]}])"
        if k == "sum":
            was, self.o = self.o, "oth"
            t = f"sum({self.a(e['e'])} for oth in {self.oth})"
            self.o = was
            return t
        raise ValueError(e)

    def mname(self, i, n):
        return f"{self.nm['dtype'][i - 1]}.{self.nm['modes'][i - 1][n - 1]}"

    def b(self, e):
        k = e["k"]
        if k in ("cmp", "and", "or", "not", "m") and self.can_hoist(0.15):
            self.deep = False
            t = self.b(e)
            self.deep = True
            return self.hoist(t)
        if k in ("cmp", "and", "or", "not", "any", "all", "hx") and self.deep and self.r.random() < 0.15:
            return self.once(self.b, e, self.o is not None)
        if k == "T":
            return "True"
        if k == "F":
            return "False"
        if k == "cmp":
            l, r = self.a(e["l"]), self.a(e["r"])
            if self.sugar and self.r.random() < 0.2:
                flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
                return f"{r} {flip[e['op']]} {l}"
            return f"{l} {e['op']} {r}"
        if k in ("m", "nm"):
            who = self.ego if e["w"] == "e" else self.o
            op = "==" if k == "m" else "!="
            l, r = f"{who}.{self.nm['disc'][e['i'] - 1]}", self.mname(e["i"], e["n"])
            return f"{r} {op} {l}" if self.deep and self.r.random() < 0.2 else f"{l} {op} {r}"
        if k == "mm":
            d = self.nm["disc"][e["i"] - 1]
            return f"{self.ego}.{d} == {self.o}.{d}"
        if k == "hx":
            return (f"{self.tm}.h_exist({self.ego}.{self.nm['disc'][e['t'] - 1]}, {self.ego}.{self.nm['disc'][e['i'] - 1]}, "
                    f"{self.mname(e['i'], e['n'])})")
        if k in ("and", "or"):
            es = e["es"]
            if len(es) == 1:
                return self.b(es[0])
            if (self.sugar and k == "and" and all(x["k"] == "cmp" for x in es) and all(x["r"] == y["l"] for x, y in zip(es, es[1:]))):
                return "(" + self.a(es[0]["l"]) + "".join(f" {x['op']} {self.a(x['r'])}" for x in es) + ")"
            return "(" + f" {k} ".join(self.b(x) for x in es) + ")"
        if k == "not":
            return f"(not {self.b(e['e'])})"
        if k in ("any", "all"):
            o = "o" if not self.sugar else self.r.choice(["o", "oth", "car"] + ([self.out, "t0"] if self.deep else []))
            if o in (self.oth, self.tm, self.ego):
                o = "o_"
            was, self.o = self.o, o
            body = e["e"]
            if self.sugar and body["k"] == ("and" if k == "any" else "or") and e.get("flt"):
                c0, *cs = body["es"]
                # any(A for o in others if B) == any(A and B); all(A for .. if B) == all(A or not B)
                t = f"{k}({self.b(c0)} for {o} in {self.oth}" + "".join(f" if {self.b(c if k == 'any' else c['e'])}" for c in cs) + ")"
            else:
                t = f"{k}({self.b(body)} for {o} in {self.oth})"
            self.o = was
            return t
        raise ValueError(e)

    def cond(self, e, ind):
        """A test, possibly hoisted into a local or a helper function."""
        pre = []
        self.pre = [] if ind and not self.inhelper else None
        s = self.b(e)
        if self.pre:
            pre = ["    " * ind + p for p in self.pre]
        self.pre = None
        if any(p.split(" = ")[0].strip() in s for p in pre):
            return pre, s
        x = self.r.random()
        if self.sugar and x < 0.12 and not self.inhelper:
            n = f"t{self.nf}"
            self.nf += 1
            pre.append("    " * ind + f"{n} = {s}")
            s = n
        elif self.sugar and x < 0.22 and not self.inhelper:
            n = f"helper{self.nf}"
            self.nf += 1
            use_o = "others" in s
            use_m = "track_map" in s
            T = self.nm["state"]
            sig = f"ego: {T}" + (f", others: List[{T}]" if use_o else "") + (", track_map" if use_m else "")
            self.funcs.append(f"def {n}({sig}):\n    return {s}\n")
            s = f"{n}(ego" + (", others" if use_o else "") + (", track_map" if use_m else "") + ")"
        return pre, s

    def stmt(self, s, ind, out):
        p = "    " * ind
        k = s["k"]
        if k == "setd":
            v = s["v"]
            if v["k"] == "const":
                rhs = self.mname(s["i"], v["n"])
            else:
                rhs = (f"{self.tm}.h(ego.{self.nm['disc'][v['t'] - 1]}, ego.{self.nm['disc'][v['i'] - 1]}, "
                       f"{self.mname(v['i'], v['n'])})")
            out.append(f"{p}{self.out}.{self.nm['disc'][s['i'] - 1]} = {rhs}")
        elif k == "setc":
            self.pre = []
            v = self.a(s["v"])
            out.extend(p + q for q in self.pre)
            self.pre = None
            out.append(f"{p}{self.out}.{self.nm['cont'][s['i'] - 1]} = {v}")
        elif k == "assert":
            lab = "" if s["lab"] == self.nolab else f", \"L{s['lab']}\""
            if self.deep:
                if not self.inhelper and self.r.random() < 0.25:
                    out.append(p + self.assert_helper([s]))
                    return
                self.pre = []
                c = self.b(s["c"])
                out.extend(p + q for q in self.pre)
                self.pre = None
                out.append(f"{p}assert {c}{lab}")
                return
            out.append(f"{p}assert {self.b(s['c'])}{lab}")
        elif k == "if":
            if self.deep and not self.inhelper and only_asserts([s]) and self.r.random() < 0.5:
                out.append(p + self.assert_helper([s]))
                return
            pre, c = self.cond(s["c"], ind)
            out.extend(pre)
            out.append(f"{p}if {c}:")
            self.block(s["t"], ind + 1, out)
            f = s["f"]
            if f:
                if self.sugar and len(f) == 1 and f[0]["k"] == "if" and self.r.random() < 0.6:
                    sub = []
                    # an elif cannot hoist its test
                    sg, self.sugar, dp, self.deep = self.sugar, False, self.deep, False
                    self.stmt(f[0], ind, sub)
                    self.sugar, self.deep = sg, dp
                    sub[0] = sub[0].replace("if ", "elif ", 1)
                    out.extend(sub)
                else:
                    out.append(f"{p}else:")
                    self.block(f, ind + 1, out)
        else:
            raise ValueError(s)

    def block(self, ss, ind, out):
        n = len(out)
        for s in ss:
            self.stmt(s, ind, out)
        if len(out) == n:
            out.append("    " * ind + "pass")

    def source(self):
        nm = self.nm
        self.out = self.r.choice(["output", "next", "res"]) if self.sugar else "output"
        self.inhelper = False
        body = []
        self.block(self.ag["prog"], 1, body)
        if body and body[-1].strip() == "pass" and not self.ag["prog"]:
            body = []
        hdr = ["from enum import Enum, auto", "import copy", "from typing import List", ""]
        seen = set()
        for t, ms in zip(nm["dtype"], nm["modes"]):
            if t in seen:
                continue
            seen.add(t)
            hdr.append(f"class {t}(Enum):")
            hdr += [f"    {m} = auto()" for m in ms]
            hdr.append("")
        T = nm["state"]
        hdr.append(f"class {T}:")
        hdr += [f"    {v}: float" for v in nm["cont"]]
        hdr += [f"    {d}: {t}" for d, t in zip(nm["disc"], nm["dtype"])]
        hdr.append("    def __init__(self, " + ", ".join(nm["cont"] + nm["disc"]) + "):")
        hdr.append("        pass")
        hdr.append("")
        args = f"ego: {T}"
        if self.ag.get("sees", 1):
            args += f", others: List[{T}]"
        if self.ag.get("usemap"):
            args += ", track_map"
        hdr += [f"{n} = {v}" for v, n in self.consts.items()]
        src = "\n".join(hdr) + "\n" + "\n".join(self.funcs) + f"\ndef decisionLogic({args}):\n"
        src += f"    {self.out} = copy.deepcopy(ego)\n" + "\n".join(body) + f"\n    return {self.out}\n"
        return src


# ---------------------------------------------------------------- generation
def C(n):
    return {"k": "c", "n": n}


def V(i, w="e"):
    return {"k": "v", "w": w, "i": i}


def cmp_(op, l, r):
    return {"k": "cmp", "op": op, "l": l, "r": r}


def AND(*es):
    return {"k": "and", "es": list(es)}


def OR(*es):
    return {"k": "or", "es": list(es)}


def NOT(e):
    return {"k": "not", "e": e}


def M(i, n, w="e"):
    return {"k": "m", "w": w, "i": i, "n": n}


def IF(c, t, f=()):
    return {"k": "if", "c": c, "t": list(t), "f": list(f)}


def SETD(i, n):
    return {"k": "setd", "i": i, "v": {"k": "const", "n": n}}


def SETC(i, v):
    return {"k": "setc", "i": i, "v": v}


def ASSERT(c, lab):
    return {"k": "assert", "c": c, "lab": lab}


class Gen:
    """Random scenario generator.  All continuous values are multiples of 8, thresholds are 4 mod 8
    (`exact`=True also uses thresholds that values can hit exactly: point semantics only)."""

    def __init__(self, r, **o):
        self.r = r
        self.o = dict(nag=(1, 3), nv=(1, 2), nm=(2, 3), d2=0.3, steps=(2, 6), H=(1, 5), stmts=(1, 3), depth=2,
                      asserts=0.4, nodl=0.15, cpl=0.0, map=0.0, exact=False, sum=0.0, resets=0.5, box=False,
                      prefix=0.5, sugar=True, uncond=0.1, bothbr=0.15, lanes=0, sys=0, engine="")
        self.o.update(o)

    def thr(self):
        b = 8 * self.r.randint(-3, 5)
        return b + (self.r.choice([0, 4]) if self.o["exact"] else 4)

    def op(self):
        ops = ["<", "<=", ">", ">="]
        if self.o["exact"] and self.r.random() < 0.15:
            ops = ["==", "!="]
        return self.r.choice(ops)

    def lc(self, c, w="e", tw="e", hn=0):
        return {"k": "lc", "c": c, "w": w, "tw": tw, "t": 2, "i": 1, "hn": hn}

    def lane_atom(self, ag, inany=False, hn=0):
        """a condition on lane coordinates"""
        r = self.r
        tw = r.choice(["e", "o"]) if inany and not hn else "e"
        if r.random() < 0.5:
            return cmp_(self.op(), self.lc(1, "o" if inany else "e", tw, hn), C(self.thr()))
        if inany:
            return cmp_(self.op(), {"k": "-", "l": self.lc(0, "o", tw, hn), "r": self.lc(0, "e", tw if tw == "e" else r.choice("eo"), hn)}, C(self.thr()))
        return cmp_(self.op(), self.lc(0, "e", tw, hn), C(self.thr() + self.lane_off))

    def lane_conj(self, ag):
        """Conditions no two of which depend on the same coordinate: on boxes each call of the map is a
        quantity of its own for the library"""
        r = self.r
        off = self.thr() + self.lane_off
        hn = r.randint(1, ag["nmo"]) if r.random() < 0.3 else 0
        es = [{"k": "hx", "t": 2, "i": 1, "n": hn}] if hn else []
        x = r.random()
        if x < 0.4 and ag["sees"]:
            tw = "e" if hn else r.choice("eo")
            b = [cmp_(self.op(), {"k": "-", "l": self.lc(0, "o", tw, hn), "r": self.lc(0, "e", tw, hn)}, C(self.thr()))]
            y = r.random()
            if y < 0.3:
                b.append(cmp_(self.op(), self.lc(1, "o", tw, hn), C(self.thr())))
            if y > 0.6:
                b.append({"k": "mm", "i": 2} if r.random() < 0.5 else M(1, r.randint(1, ag["nmo"]), "o"))
            if r.random() < 0.3:
                es.append(NOT({"k": "any", "e": AND(*b)}) if r.random() < 0.5 else {"k": "all", "e": OR(*b)})
            else:
                es.append({"k": "any", "e": AND(*b)})
        elif x < 0.7:
            es.append(cmp_(self.op(), self.lc(0, hn=hn), C(off)))
        if x > 0.55:
            es.append(cmp_(self.op(), self.lc(1, hn=hn), C(self.thr())))
        if ag["nv"] > 2 and r.random() < 0.3:
            es.append(cmp_(self.op(), V(3), C(self.thr())))
        if not es:
            es = [cmp_(self.op(), self.lc(1), C(self.thr()))]
        if r.random() < 0.35:
            es.insert(0, M(1, r.randint(1, ag["nds"][0])))
        return AND(*es) if len(es) > 1 else es[0]

    def lane_prog(self, ag, nm, nt):
        r, out = self.r, []
        for _ in range(r.randint(*self.o["stmts"])):
            if r.random() < self.o["asserts"] * 0.5:
                self.lab += 1
                a = ASSERT(cmp_(self.op(), self.lc(1), C(self.thr())) if r.random() < 0.6 else self.lane_conj(ag), self.lab)
                out.append(IF(M(1, r.randint(1, ag["nds"][0])), [a]) if r.random() < 0.4 else a)
                continue
            n = r.randint(1, nm)
            g = self.lane_conj(ag)
            if r.random() < 0.6:
                g = AND({"k": "hx", "t": 2, "i": 1, "n": n}, g)
                out.append(IF(g, [SETD(1, n), {"k": "setd", "i": 2, "v": {"k": "h", "t": 2, "i": 1, "n": n}}]))
            else:
                out.append(IF(g, [SETD(1, n), SETD(2, r.randint(1, nt))]))
        return out

    def lanes(self, nt):
        """geometry: lanes along one axis, in either direction, the position inside all of them"""
        r = self.r
        horiz = r.random() < 0.7
        self.lane_off = 800
        out = []
        for _ in range(nt):
            s = r.choice([1, 1, -1])
            o = 8 * r.randint(-2, 3)
            l = dict(x=-800 * s, y=o, dx=s, dy=0) if horiz else dict(x=o, y=-800 * s, dx=0, dy=s)
            l["cuts"] = sorted(800 + 8 * k for k in r.sample(range(-6, 9), r.choice([0, 0, 1, 2])))
            out.append(l)
        return out

    def atom(self, ag, inany=False):
        r = self.r
        if self.o["lanes"] and r.random() < 0.4:
            return self.lane_atom(ag, inany)
        x = r.random()
        i = r.randint(1, ag["nv"])
        if inany:
            if x < 0.45:
                return cmp_(self.op(), {"k": "-", "l": V(i), "r": V(i, "o")}, C(self.thr()))
            if x < 0.65:
                return cmp_(self.op(), V(i, "o"), C(self.thr()))
            if x < 0.85:
                return M(1, r.randint(1, ag["nmo"]), "o")
            return {"k": "mm", "i": 1} if ag["hom"] else M(1, r.randint(1, ag["nmo"]), "o")
        if x < 0.12 and ag["nv"] >= 2:
            op2 = r.choice("+-")
            return cmp_(self.op(), {"k": op2, "l": V(1), "r": V(2)}, C(self.thr()))
        if x < 0.18 and self.o["exact"]:
            return cmp_(self.op(), {"k": "*", "n": r.choice([2, -1, 3]), "r": V(i)}, C(self.thr()))
        if self.o["sum"] and 0.18 <= x < 0.18 + self.o["sum"] and ag["sees"]:
            return cmp_(self.op(), {"k": "sum", "e": V(i, "o")}, C(self.thr()))
        if x < 0.85:
            return cmp_(self.op(), V(i), C(self.thr()))
        return self.dmode(ag)

    def dmode(self, ag):
        r = self.r
        i = r.randint(1, ag["nd"])
        n = r.randint(1, ag["nds"][i - 1])
        return M(i, n) if r.random() < 0.8 else {"k": "nm", "w": "e", "i": i, "n": n}

    def chain(self, ag):
        """a comparison of three or four quantities in a row"""
        r = self.r
        i, j = r.randint(1, ag["nv"]), r.randint(1, ag["nv"])
        if self.o["box"] or i == j or not self.o["exact"]:
            lo = self.thr()
            q, ops = [C(lo), V(i), C(lo + 8 * r.randint(1, 4))], ["<", "<"]
        else:
            q, ops = [C(self.thr()), V(i), V(j), C(self.thr())], [self.op() for _ in range(3)]
            if r.random() < 0.3:
                q, ops = q[1:], ops[1:]
        return AND(*[cmp_(o, a, b) for o, a, b in zip(ops, q, q[1:])])

    def guard(self, ag, d=2):
        r = self.r
        if self.o["lanes"] and r.random() < 0.15:
            n = r.randint(1, ag["nmo"])
            return AND({"k": "hx", "t": 2, "i": 1, "n": n}, self.lane_atom(ag, hn=n))
        x = r.random()
        if d == 0 or x < 0.5:
            return self.atom(ag)
        if x < 0.54:
            return self.chain(ag)
        if x < 0.68:
            return AND(self.guard(ag, d - 1), self.guard(ag, d - 1))
        if x < 0.76:
            return OR(self.guard(ag, d - 1), self.guard(ag, d - 1))
        if x < 0.82:
            return NOT(self.guard(ag, d - 1))
        if not ag["sees"]:
            return self.atom(ag)
        y = r.random()
        q = r.choice(["any", "all"])
        if y < 0.5:
            return {"k": q, "e": self.atom(ag, True)}
        a, b = self.atom(ag, True), self.atom(ag, True)
        if r.random() < 0.3 and self.o["sugar"]:
            # filtered generators
            fs = [b] + ([self.atom(ag, True)] if r.random() < 0.3 else [])
            return {"k": q, "e": AND(a, *fs) if q == "any" else OR(a, *[NOT(f) for f in fs]), "flt": 1}
        return {"k": q, "e": AND(a, b) if r.random() < 0.6 else OR(a, b)}

    def aexp(self, ag):
        r = self.r
        x = r.random()
        i = r.randint(1, ag["nv"])
        if x < 0.4:
            return C(8 * r.randint(-2, 3))
        if x < 0.7:
            return {"k": r.choice("+-"), "l": V(i), "r": C(8 * r.randint(1, 2))}
        if x < 0.8 and ag["nv"] > 1:
            return {"k": r.choice("+-"), "l": V(1), "r": V(2)}
        if x < 0.9:
            return {"k": "*", "n": r.choice([-1, 2]), "r": V(i)}
        return V(i)

    def assign(self, ag):
        r = self.r
        if r.random() < self.o["resets"] * 0.6:
            return SETC(r.randint(1, ag["nv"]), self.aexp(ag))
        i = r.randint(1, ag["nd"])
        if ag["tr"] == i:
            i = ag["am"]
        return SETD(i, r.randint(1, ag["nds"][i - 1]))

    def stmt(self, ag, d):
        r = self.r
        x = r.random()
        if x < self.o["asserts"] * 0.3:
            self.lab += 1
            return ASSERT(self.guard(ag, 1) if r.random() < 0.4 else self.safe(ag), self.lab)
        if d == 0:
            return self.assign(ag)
        g = self.guard(ag)
        if r.random() < 0.35:
            g = AND(M(1, r.randint(1, ag["nds"][0])), g)
        t = [self.stmt(ag, d - 1) if r.random() < 0.35 else self.assign(ag) for _ in range(r.randint(1, 2))]
        f = []
        if r.random() < 0.25:
            f = [self.stmt(ag, d - 1)]
            if r.random() < self.o["bothbr"]:
                f = [dict(s) for s in t]
        return IF(g, t, f)

    def safe(self, ag):
        """an assertion that is usually true near the origin"""
        i = self.r.randint(1, ag["nv"])
        b = cmp_("<", V(i), C(8 * self.r.randint(2, 6) + 4))
        if ag["sees"] and self.r.random() < 0.3:
            return {"k": "all", "e": cmp_("<", {"k": "-", "l": V(i), "r": V(i, "o")}, C(8 * self.r.randint(1, 5) + 4))}
        return b if self.r.random() < 0.6 else OR(b, self.atom(ag))

    def prog(self, ag):
        ss = []
        for _ in range(self.r.randint(*self.o["stmts"])):
            if self.r.random() < self.o["asserts"] * 0.5:
                self.lab += 1
                ss.append(ASSERT(self.safe(ag), self.lab))
            else:
                s = self.stmt(ag, self.o["depth"])
                if s["k"] in ("setd", "setc") and self.r.random() > self.o["uncond"]:
                    s = IF(self.guard(ag), [s])
                ss.append(s)
        return ss

    def scenario(self, cid):
        r, o = self.r, self.o
        nag = r.randint(*o["nag"])
        nv = r.randint(*o["nv"])
        usemap = r.random() < o["map"]
        two = r.random() < o["d2"]
        nm = r.randint(*o["nm"])
        self.lab = 0
        pi = r.randrange(4) if r.random() < o["prefix"] else 0
        pv = r.choice(VAR_POOLS) if r.random() < o["prefix"] else VAR_POOLS[0]
        pv = r.sample(pv, 3)
        names_ids = r.choice(ID_POOLS)
        agents, py = [], []
        h, lanes, names = [], [], []
        if usemap:
            nt = r.randint(2, 3)
            names = [f"T{j}" for j in range(nt)]
            if o["lanes"]:
                lanes = self.lanes(nt)
                for _ in range(r.randint(0, 2)):  # virtual tracks between lanes use the geometry of the first
                    a, b = r.sample(range(nt), 2)
                    if f"M{a}{b}" not in names:
                        names.append(f"M{a}{b}")
                        lanes.append(dict(lanes[a], of=f"T{a}"))
                nt = len(names)
            # h[t][m][m2] over tracks 1..nt and agent modes 1..nm
            h = [[[0] * nm for _ in range(nm)] for _ in range(nt)]
            for t in range(nt):
                for a in range(nm):
                    for b in range(nm):
                        if a == b:
                            h[t][a][b] = t + 1
                        elif r.random() < 0.6:
                            h[t][a][b] = r.randint(1, nt)
        for a in range(nag):
            if usemap:
                nds = [nm, nt]
                tr, am = 2, 1
                disc, dtype = ["agent_mode", "track_mode"], ["AgentMode", "TrackMode"]
                modes = [MODE_POOLS[pi][:nm], names]
                if r.random() < 0.5 and a > 0 and agents[-1]["tr"] == 1:
                    pass
            else:
                nds = [nm] + ([3 if o.get("same2") else r.randint(2, 3)] if two else [])
                tr = am = 0
                disc = DISC_POOLS[pi][: len(nds)]
                dtype = ["AgentMode", "SubMode"][: len(nds)]
                modes = [MODE_POOLS[pi][:nm], MODE2_POOLS[pi % 2][:nds[1]] if two else []][: len(nds)]
            nd = len(nds)
            dl = a == 0 or r.random() > o["nodl"]
            ag = {"nv": nv, "nd": nd, "nds": nds, "tr": tr, "am": am, "dl": 1 if dl else 0,
                  "vel": [[8 * r.randint(-1, 2) for _ in range(nv)] for _ in range(nm)],
                  "cpl": [0] * nv, "sees": 1 if (nag > 1 or r.random() < 0.1) and r.random() < 0.85 else 0,
                  "hom": 1, "nmo": nm, "usemap": 1 if usemap else 0}
            if o["sys"]:
                self.system(ag)
            elif nv >= 2 and r.random() < o["cpl"]:
                ag["cpl"][0] = 2
                for v in ag["vel"]:
                    v[1] = r.choice([0, 0, 8])
            ag["init"] = [8 * r.randint(-1, 3) for _ in range(nv)]
            if o["box"]:
                ag["hi"] = [x + 8 * r.choice([0, 0, 1, 2]) for x in ag["init"]]
            ag["mode"] = [r.randint(1, n) for n in nds]
            ag["prog"] = [] if not dl else self.lane_prog(ag, nm, nt) if o["lanes"] == "box" else self.prog(ag)
            if usemap and dl and o["lanes"] != "box":
                ag["prog"] += self.map_stmts(ag, nm, nt)
            agents.append(ag)
            py.append({"id": names_ids[a], "cont": pv[:nv], "disc": disc, "dtype": dtype,
                       "modes": modes, "state": "State", "rs": r.randrange(1 << 30)})
        N = r.randint(*o["steps"])
        sc = {"ag": agents, "N": N, "H": r.randint(*o["H"]), "h": h, "lanes": lanes}
        return {"id": cid, "sc": sc, "py": py, "dt": r.choice([0.1, 0.2, 0.25, 0.5, 1.0, 0.05])}

    def system(self, ag):
        """a linear system with uncertain inputs, the same in all modes"""
        r = self.r
        ag["vel"] = [ag["vel"][0]] * len(ag["vel"])
        if self.o["sys"] == 2 and ag["nv"] > 1:
            # without cycles, so that values stay small
            up = r.randint(0, 1)
            ag["cpl"] = [r.choice([0, 1, -1]) * r.choice([j for j in range(1, ag["nv"] + 1) if (j > i if up else j < i)] or [0])
                         for i in range(1, ag["nv"] + 1)]
        ag["wlo"] = [8 * r.choice([0, 0, -1]) for _ in range(ag["nv"])]
        ag["whi"] = [8 * r.choice([0, 0, 1]) for _ in range(ag["nv"])]

    def map_stmts(self, ag, nm, nt):
        r = self.r
        out = []
        for _ in range(r.randint(1, 2)):
            n = r.randint(1, nm)
            x = r.random()
            g = self.guard(ag, 1)
            if x < 0.6:
                g = AND(g, {"k": "hx", "t": 2, "i": 1, "n": n})
                out.append(IF(g, [SETD(1, n), {"k": "setd", "i": 2, "v": {"k": "h", "t": 2, "i": 1, "n": n}}]))
            else:
                # explicit target track; whether it is permitted is up to the map
                b = [SETD(1, n)] if r.random() < 0.7 else []
                out.append(IF(g, b + [SETD(2, r.randint(1, nt))]))
        return out


def scaled(x, r):
    """Four times as wide a scenario, so that sets can be split; thresholds stay odd multiples of 4"""
    if isinstance(x, dict):
        if x.get("k") == "c":
            n = x["n"]
            return dict(x, n=4 * n if n % 8 == 0 else 4 * n - 16 + r.choice([4, 12, 20, 28]))
        return {k: scaled(v, r) for k, v in x.items()}
    return [scaled(v, r) for v in x] if isinstance(x, list) else x


def tla_case(case):
    """the part of a case TLC sees"""
    return {"id": case["id"], "sc": strip_sc(case["sc"])}


def strip_sc(sc):
    out = {"N": sc["N"], "H": sc["H"], "h": sc["h"], "ag": []}
    for ag in sc["ag"]:
        out["ag"].append({k: ag[k] for k in ("nv", "nd", "vel", "cpl", "dl", "tr", "am", "init", "mode", "prog")}
                         | ({"hi": ag["hi"]} if "hi" in ag else {})
                         | {k: ag.get(k) or [0] * ag["nv"] for k in ("wlo", "whi")} | {"pts": ag.get("pts", 0)})
    for k, d in (("uc", 0), ("seg", 1000), ("part", 0), ("pinit", 0), ("off", 0), ("reach", -1), ("direct", 0)):
        out[k] = sc.get(k, d)
    out["pdims"] = sc.get("pdims", [])
    out["lanes"] = sc.get("lanes", [])
    return out


def unit(case):
    """what the library sees is the model's value times this power of two"""
    return 2.0 ** case.get("unit", 0)


def sources(case):
    out = []
    for ag, nm in zip(case["sc"]["ag"], case["py"]):
        if not ag["dl"]:
            out.append(None)
        else:
            out.append(Renderer(ag, nm, random.Random(nm["rs"]), case.get("sugar", True), case.get("deep", False), unit(case)).source())
    return out
