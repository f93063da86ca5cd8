"""Registry: property -> stages."""
import agents, core, cover, family, hist, initapi, lanes, maps, treeops, tubes, trees
from trees import VER, tree_stage

SIM = {
    "base": dict(),
    "exact": dict(exact=True, nag=(1, 3), steps=(3, 8)),
    "assert": dict(asserts=0.9, exact=True, steps=(3, 8)),
    "nd": dict(nag=(1, 2), stmts=(2, 4), bothbr=0.5, resets=0.8, asserts=0.1, H=(2, 4)),
    "multi": dict(nag=(2, 3), asserts=0.2, steps=(4, 9)),
    "map": dict(map=1.0, asserts=0.2),
    "sum": dict(sum=0.3, exact=True, nag=(2, 3)),
    "long": dict(nag=(1, 1), steps=(8, 14), H=(4, 7), asserts=0.15),
    "short": dict(steps=(1, 3), H=(4, 8), nag=(1, 2), asserts=0.1),
    "uc": dict(asserts=0.9, sc={"uc": 1}, steps=(3, 8)),
    "H": dict(H=(1, 4), asserts=0.1, steps=(4, 8)),
    "parse": dict(deep=True, asserts=0.3, nag=(1, 2), stmts=(3, 6), depth=3),
    "parse-multi": dict(deep=True, asserts=0.3, nag=(2, 3), stmts=(2, 4), depth=3, exact=True),
    "parse-map": dict(deep=True, asserts=0.3, nag=(1, 3), stmts=(2, 4), depth=2, map=1.0, exact=True),
    "sens": dict(nag=(2, 3), sens=1, steps=(3, 8)),
    "sens-assert": dict(nag=(2, 3), sens=1, asserts=0.7, sum=0.2, exact=True, steps=(3, 8)),
    "reset": dict(resets=1.0, nv=(2, 3), asserts=0.1, steps=(3, 8), cpl=0.3),
}
VERF = {
    "base": dict(sc={"seg": 1}),
    "multi": dict(nag=(2, 3), sc={"seg": 1}),
    "seg": dict(resets=0.8, sc={"seg": 1000}),
    "map": dict(map=1.0, sc={"seg": 1}),
    "sum": dict(sum=0.3, nag=(2, 3), sc={"seg": 1}),
    "assert": dict(asserts=0.9, sc={"seg": 1}, steps=(3, 7)),
    "nd": dict(stmts=(2, 4), bothbr=0.4, resets=0.8, asserts=0.1, H=(2, 3), sc={"seg": 1}),
    "uc": dict(asserts=0.9, sc={"seg": 1, "uc": 1}, steps=(3, 7)),
    "d2": dict(d2=0.7, sc={"seg": 2}),
    "H": dict(H=(1, 4), asserts=0.1, sc={"seg": 1}),
    "parse": dict(deep=True, stmts=(2, 4), depth=3, asserts=0.3, sc={"seg": 1}),
    "parse-map": dict(deep=True, stmts=(1, 2), nv=(1, 1), depth=2, asserts=0.3, map=1.0, sc={"seg": 1}),
    "sens": dict(nag=(2, 3), sens=1, sc={"seg": 1}),
    "reset": dict(resets=1.0, nv=(2, 3), nag=(1, 2), asserts=0.1, H=(2, 4), sc={"seg": 1}),
    "seg2": dict(resets=0.9, asserts=0.1, sc={"seg": 2}),
    "seg3": dict(resets=0.9, nag=(1, 1), asserts=0.1, steps=(4, 8), sc={"seg": 3}),
}


def sim(ctx, fam, q, t, clauses=("*",)):
    tree_stage(ctx, "sim", "sim-" + fam, ctx.n(q, t), SIM[fam], clauses)


def ver(ctx, fam, q, t, clauses=("*",)):
    tree_stage(ctx, "ver", "ver-" + fam, ctx.n(q, t), dict(VER, **VERF[fam]), clauses)


KIDS = ("kids.*", "root", "parent", "offgrid")


def P01(ctx):
    for f in ("base", "exact", "multi", "map", "long", "nd"):
        sim(ctx, f, 250, 6000)
    family.stage(ctx, "sim", "one", 1)
    family.stage(ctx, "sim", "pair", ctx.n(211, 7))
    family.stage(ctx, "sim", "two", ctx.n(811, 41))


def P02(ctx):
    for f in ("nd", "multi", "map", "short"):
        sim(ctx, f, 300, 8000, KIDS + ("cut.*",))


def P04(ctx):
    for f in ("assert", "sum", "uc"):
        sim(ctx, f, 400, 8000, ("asserts", "cut.*", "kids.*", "rows"))


def P05(ctx):
    for f in ("assert", "sum", "uc", "multi"):
        ver(ctx, f, 160, 5000, ("asserts.*", "cut.unsafe", "offgrid"))


def P07(ctx):
    for f in ("base", "nd", "multi", "seg", "map", "d2"):
        ver(ctx, f, 110, 5000, KIDS + ("cut.*", "ids", "height"))
    family.stage(ctx, "ver", "one", ctx.n(5, 1))
    family.stage(ctx, "ver", "pair", ctx.n(701, 11))
    family.stage(ctx, "ver", "two", ctx.n(3001, 61))


def P03(ctx):
    for f in ("parse", "parse-multi", "parse-map"):
        sim(ctx, f, 240, 12000)
    for f in ("parse", "parse-map"):
        ver(ctx, f, 75, 8000)


def P09(ctx):
    sim(ctx, "reset", 400, 10000, KIDS + ("kids.*",))
    ver(ctx, "reset", 150, 6000, KIDS)


def P10(ctx):
    sim(ctx, "map", 500, 12000, KIDS + ("cut.*",))
    ver(ctx, "map", 160, 6000, KIDS + ("cut.*",))


def P11(ctx):
    for f in ("sens", "sens-assert"):
        sim(ctx, f, 300, 10000)
    ver(ctx, "sens", 160, 6000)


def P12(ctx):
    for f in ("base", "long", "short"):
        sim(ctx, f, 200, 6000, ("times", "cut.flow", "offgrid", "root", "parent"))
    for f in ("base", "seg2"):
        ver(ctx, f, 100, 4000, ("times", "cut.flow", "offgrid", "root", "parent"))


def P13(ctx):
    sim(ctx, "H", 400, 8000, ("height", "kids.*", "parent"))
    ver(ctx, "H", 150, 6000, ("height", "kids.*", "parent"))


def P25(ctx):
    for f in ("base", "seg2", "seg3"):
        ver(ctx, f, 120, 5000, ("tube", "tube.*", "leaf.rows", "times", "offgrid"))


def P15(ctx):
    for f in ("base", "nd", "assert", "multi", "map", "uc"):
        hist.stage(ctx, "sim", "hist-" + f, ctx.n(110, 3000), SIM[f])


def P16(ctx):
    for f in ("base", "nd", "assert", "multi", "map", "uc", "seg"):
        hist.stage(ctx, "ver", "vhist-" + f, ctx.n(50, 3000), dict(VER, **VERF[f]))


def P22(ctx):
    for f in ("base", "multi", "map"):
        hist.mixed_stage(ctx, "mixed-" + f, ctx.n(70, 3000), dict(trees.VER, **dict(VERF[f], same2=1)))


def P23(ctx):
    D = {"direct": 1, "off": 0}
    for name, o in (("plain", dict(asserts=0.5)), ("deep", dict(asserts=0.5, exact=True, deep=True, sum=0.2, nag=(2, 3), stmts=(2, 5))),
                    ("map", dict(map=1.0, asserts=0.2)), ("sens", dict(sens=1, nag=(2, 3), asserts=0.5)), ("long", dict(nag=(1, 2), steps=(6, 12), H=(3, 7)))):
        tree_stage(ctx, "sim", "direct-" + name, ctx.n(250, 8000), dict(same2=1, sc=D, **o))


def P06(ctx):
    for f in ("base", "nd", "multi", "map", "assert", "reset"):
        cover.stage(ctx, "cover-" + f, ctx.n(110, 4000), dict(VER, **VERF[f]))
    cover.known(ctx)
    family.design(ctx, "one", 1)
    family.design(ctx, "pair", ctx.n(151, 5))
    family.design(ctx, "two", ctx.n(1201, 41))


def P24(ctx):
    for f in ("base", "nd", "multi", "map", "assert", "reset"):
        tree_stage(ctx, "ver", "part-" + f, ctx.n(35 if f in ("nd", "reset") else 60, 4000), dict(dict(VER, part=1, **VERF[f]), **({"nv": (2, 2)} if f == "reset" else {})))


def P28(ctx):
    L = dict(map=1.0, nv=(2, 3), steps=(3, 8), d2=0)
    tree_stage(ctx, "sim", "lane-sim", ctx.n(300, 10000), dict(L, lanes="sim", asserts=0.4, exact=True))
    tree_stage(ctx, "sim", "lane-sim-multi", ctx.n(300, 10000), dict(L, lanes="sim", nag=(2, 3), asserts=0.3, exact=True, deep=True))
    tree_stage(ctx, "ver", "lane-ver", ctx.n(200, 8000), dict(VER, **dict(L, lanes="box", asserts=0.3, steps=(2, 6), stmts=(1, 2), sc={"seg": 1})))


def P08(ctx):
    for e in ("pw", "global", "disc", "disc-global"):
        tubes.stage(ctx, "tubes-" + e, ctx.n(250 if e == "pw" else 150, 4000), e)


def P14(ctx):
    V = dict(sc={"seg": 1000}, asserts=0.3, steps=(2, 5))
    for e in ("global", "disc", "disc-global"):
        tree_stage(ctx, "ver", "engine-" + e, ctx.n(50, 3000), dict(VER, **V, engine=e, resets=0.7))
    for e in ("mix", "mix-jac", "mix-text"):
        tree_stage(ctx, "ver", "engine-" + e, ctx.n(50, 3000), dict(VER, **V, engine=e, sys=2, nv=(1, 3)))
    tree_stage(ctx, "ver", "engine-mix-cont", ctx.n(50, 3000), dict(VER, **V, engine="mix-cont", sys=1, nv=(1, 3)))


def P29(ctx):
    lanes.stage(ctx, "roads", ctx.n(400, 12000))


def P30(ctx):
    maps.stage(ctx, "tables")


def P27(ctx):
    agents.stage(ctx, "agents", ctx.n(600, 20000))


def P21(ctx):
    initapi.stage(ctx, "calls", ctx.n(700, 20000))


def P17(ctx):
    core.model(ctx, "Sched", f"CONSTANTS MaxNodes = {ctx.n(5, 6)}\nMaxAhead = 3\nSPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Ends\n")
    cfg = {"sched": 1}
    for f in ("nd", "multi", "assert", "map"):
        tree_stage(ctx, "sim", "par-sim-" + f, ctx.n(130, 5000), SIM[f], cfg=cfg)
    for f in ("nd", "multi", "assert", "seg"):
        tree_stage(ctx, "ver", "par-ver-" + f, ctx.n(45, 3000), dict(VER, **VERF[f]), cfg=cfg)
    hist.stage(ctx, "sim", "par-hist", ctx.n(50, 3000), SIM["nd"], cfg=cfg)
    hist.stage(ctx, "ver", "par-vhist", ctx.n(20, 2000), dict(VER, **VERF["nd"]), cfg=cfg)


def P18(ctx):
    treeops.stage(ctx, "dump", treeops.dump_job, ctx.n(700, 20000))


def P19(ctx):
    treeops.stage(ctx, "contains", treeops.contains_job, ctx.n(1500, 40000))


def P20(ctx):
    treeops.stage(ctx, "query", treeops.query_job, ctx.n(900, 20000))


def P26(ctx):
    treeops.stage(ctx, "fixed", treeops.fixed_job, ctx.n(900, 20000))


def run(ctx):
    globals()[ctx.prop](ctx)
    ctx.flush()
    return "model_checking"
