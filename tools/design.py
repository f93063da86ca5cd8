"""DESIGN.md from tools/DESIGN.src.md, tools/defs.py, known_findings.json and seeded/:  python3 tools/design.py"""
import json, os

import defs

HERE = defs.HERE

# property -> (how it is decided, what its stages are, seconds of the quick check on 8 cores)
HOW = {
    "P01": ("`SimTrace`, every clause; random families base, exact (thresholds met exactly), multi (2-3 agents), map, long (8-14 steps), nd, and the enumerated families one (complete), pair and two (residue classes) replayed from TLC", 40),
    "P02": ("`SimTrace`, clauses on children and cut; families nd (2-4 statements in one segment, both branches proposing), multi, map, short. `Design` checks on the specification that siblings differ", 20),
    "P03": ("`SimTrace` and `VerTrace`, every clause, on deep programs: nested ifs, else, any/all/sum with filters, helper functions (with parameters, asserts, map calls), shadowed names, several assignments per branch; the renderer picks random equivalent spellings of each AST", 43),
    "P04": ("`SimTrace`, assertion and cut clauses; families assert, sum, uc (unsafe_continue)", 15),
    "P05": ("`VerTrace`, assertion clauses and unsafe cut; families assert, sum, uc, multi. Three-valued guards of `VerseVer` say which assertions can, must and cannot be reported", 50),
    "P06": ("(a) `Design`: TLC model checks the invariant *every execution is covered* on the product of both engine specifications, all members of family one, residue classes of pair and two; (b) `CoverTrace`: recorded simulations from sampled points of recorded verified trees; (c) the two known findings are re-run", 65),
    "P07": ("`VerTrace`, clauses on children, cut, ids, heights; six random families and the enumerated families", 120),
    "P08": ("`Tubes`: the harness's agents integrate a nonlinear flow and log every simulation; rows, horizon, initial sets, learnt-from simulations, sampling beyond the centre, carrying over", 15),
    "P09": ("`SimTrace`/`VerTrace`, clauses on children, on programs whose transitions reset 2-3 coupled variables from expressions over all of them and negative values", 27),
    "P10": ("`SimTrace`/`VerTrace`, clauses on children and cut, scenarios with random (also partial) map tables `h`, `h_exist`", 40),
    "P11": ("`SimTrace`/`VerTrace`, every clause, scenarios whose sensor shows an offset, delayed or partial view of the others, also depending on their modes", 35),
    "P12": ("`SimTrace`/`VerTrace`, times, flow cut and root clauses; time steps 2^-k, 0.1, 0.05, 0.2; long and short horizons", 25),
    "P13": ("`SimTrace`/`VerTrace`, heights, parents, child lists; max heights 1-4 against horizons 1-8; `Design` checks the height bound", 22),
    "P14": ("`VerTrace`, every clause, with the engines DRYVR/GLOBAL, DRYVR_DISC (both), MIXMONO_DISC (decomposition, Jacobian, text) and MIXMONO_CONT, on affine agents with uncertain parameters", 150),
    "P15": ("histories of 2-4 runs in one incremental scenario with random edits in between; every run's tree goes to `SimTrace` as a fresh one", 35),
    "P16": ("as P15 for verification, `VerTrace`; parts where a cached tube of a larger set is reused may be larger than exact but must be sound (`tube` clause relaxed to containment)", 90),
    "P17": ("(a) `Sched`: TLC explores all schedules of the exploration loop for all trees up to 5 (6) nodes: every node is explored once, all end; (b) the library's parallel loops run with a stand-in for `ray` whose `wait` returns tasks in random orders and numbers; trees go to `SimTrace`/`VerTrace`", 90),
    "P18": ("`TreeOps`: dumped and loaded trees (random and real) compared as data", 15),
    "P19": ("`TreeOps`: answers of `contains`/`is_subset`/`==` on pairs of random trees judged against their definition", 15),
    "P20": ("`TreeOps`: answers of the query functions on random trees judged against their definition", 12),
    "P21": ("`InitApi`: random sequences of calls on the scenario object (constructor, set_init, set_static, seeds, single points and sets, run); the root of each run judged against the state machine", 20),
    "P22": ("histories of interleaved simulate/verify/partitioned/incremental runs and configuration changes on one scenario and on two sharing agents; trees judged as fresh ones; earlier trees and arguments unchanged", 84),
    "P23": ("`SimTrace` with `direct`: sequential meaning of the decision function (`Direct`), one path", 40),
    "P24": ("`VerTrace` with partitioning operators of `VerseVer` (roots, window images, tubes per part)", 80),
    "P25": ("`VerTrace`, tube clauses; init_seg_length 1, 2, 3", 35),
    "P26": ("`TreeOps`: joint reach sets over agents, inclusion of boxes in unions by enumeration of the grid's cells", 12),
    "P27": ("`Agents`: trajectories of the built-in agents row by row", 12),
    "P28": ("`SimTrace`/`VerTrace` with lane coordinates of positions on straight lanes in the sensed world", 40),
    "P29": ("`Lanes`: answers of real lanes and of guards over them against integer geometry", 25),
    "P30": ("`MapTables`: complete tables of the real maps against the geometry of their lanes", 12),
}


def main():
    out = []
    for p in defs.P:
        how, cost = HOW[p["id"]]
        out += [f"### {p['id']} {p['title']}", "", f"- *Decided by*: {how}.", f"- *Technique*: {p['tech']}.", f"- *Ranges over*: {p['text']}. *Explored*: {p['note']}.",
                f"- *Why tests cannot*: {p['why']}", f"- *Cost*: quick about {cost} s. *Anchors*: {', '.join('`%s`' % f for f in p['files'][:4])}.", ""]
    k = json.load(open(f"{HERE}/known_findings.json"))
    fixes = ["| property | commit | what was wrong |", "|---|---|---|"]
    for line in reversed(k["fixed"]):
        _, prop, rest = line.split(" ", 2)
        h, text = rest.split(" ", 1)
        fixes.append(f"| {prop.split('=')[1]} | {h} | fixed: {text} |")
    bugs = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for b in sorted(os.listdir(f"{HERE}/seeded")):
        m = json.load(open(f"{HERE}/seeded/{b}/meta.json"))
        bugs.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
    s = open(f"{HERE}/tools/DESIGN.src.md").read()
    for mark, rows in (("@@TABLE@@", out), ("@@FIXES@@", fixes), ("@@BUGS@@", bugs)):
        s = s.replace(mark, "\n".join(rows))
    open(f"{HERE}/DESIGN.md", "w").write(s)


if __name__ == "__main__":
    main()
