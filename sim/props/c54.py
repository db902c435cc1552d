import itertools
import random

from ..core import Injected, Invalid, Violation
from ..world import World
from .. import engine as en, boot

# C. G. Langton, "Self-reproduction in cellular automata", Physica D 10 (1984): centre, top, right, bottom, left -> next state
LANGTON = (
    "000000 000012 000020 000030 000050 000063 000071 000112 000122 000132 000212 000220 000230 000262 000272 000320 "
    "000525 000622 000722 001022 001120 002020 002030 002050 002125 002220 002322 005222 012321 012421 012525 012621 "
    "012721 012751 014221 014321 014421 014721 016251 017221 017255 017521 017621 017721 025271 100011 100061 100077 "
    "100111 100121 100211 100244 100277 100511 101011 101111 101244 101277 102026 102121 102211 102244 102263 102277 "
    "102327 102424 102626 102644 102677 102710 102727 105427 111121 111221 111244 111251 111261 111277 111522 112121 "
    "112221 112244 112251 112277 112321 112424 112621 112727 113221 122244 122277 122434 122547 123244 123277 124255 "
    "124267 125275 200012 200022 200042 200071 200122 200152 200212 200222 200232 200242 200250 200262 200272 200326 "
    "200423 200517 200522 200575 200722 201022 201122 201222 201422 201722 202022 202032 202052 202073 202122 202152 "
    "202212 202222 202272 202321 202422 202452 202520 202552 202622 202722 203122 203216 203226 203422 204222 205122 "
    "205212 205222 205521 205725 206222 206722 207122 207222 207422 207722 211222 211261 212222 212242 212262 212272 "
    "214222 215222 216222 217222 222272 222442 222462 222762 222772 300013 300022 300041 300076 300123 300421 300622 "
    "301021 301220 302511 401120 401220 401250 402120 402221 402326 402520 403221 500022 500215 500225 500232 500272 "
    "500520 502022 502122 502152 502220 502244 502722 512122 512220 512422 512722 600011 600021 602120 612125 612131 "
    "612225 700077 701120 701220 701250 702120 702221 702251 702321 702525 702720 "
)
# the loop Langton starts with; a dot is a cell left alone
LOOP = [".22222222......", "2170140142.....", "2022222202.....", "272....212.....", "212....212.....", "202....212.....", "272....212.....",
        "21222222122222.", "207107107111112", ".2222222222222."]


def rotations(k):
    return [k[:1] + k[i:] + k[1:i] for i in range(1, 5)]


class C54(World):
    quick_runs = 2500
    thorough_runs = 100000
    rule = ("Random CTRBL tables (2 to 8 states, with implied rotations or not, complete or with gaps) and Langton's own on tori of 3x3 to 26x30 "
            "cells; cells damaged from outside, crashes within a timestep and restarts, several rules and evolutions sharing tables, altered "
            "tables; every cell of every state is compared with an explicit grid, and an evolution ends at the first cell whose neighbourhood "
            "isn't in the table, is repaired and goes on. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct grids"
    real = ["CTRBLRule", "LangtonsLoop", "netomaton.evolve"]
    assumptions = ["three rows and columns at least; a table with implied rotations doesn't contradict itself; loops are placed apart and inside the grid"]

    def generate(self, rng, tier):
        if rng.random() < 0.12:
            rows, cols = rng.choice([(12, 18), (16, 20), (20, 24), (26, 30)])
            T = rng.choice([1, 3, 8, 14] if tier == "quick" else [1, 8, 30, 60])
            kind = {"kind": "langton", "k": 8, "at": [[rng.randrange(0, rows - 9), rng.randrange(1, cols - 13)]]}
        else:
            rows, cols = rng.choice([(3, 3), (3, 4), (4, 3), (3, 7), (5, 5), (6, 4), (4, 6)])
            T = rng.choice([1, 2, 4, 8])
            k = rng.choice([2, 2, 3, 3, 4, 8])
            kind = {"kind": "table", "k": k, "rot": rng.random() < 0.6, "full": rng.choice([0.3, 0.9, 0.98, 1, 1, 1]) if k < 8 else rng.choice([0.97, 1]),
                    "members": rng.choice(["first", "any", "several"]), "cells": [rng.randrange(k) for _ in range(rows * cols)]}
        n = rows * cols
        p = {"rows": rows, "cols": cols, "seed": rng.randrange(1 << 20), "runs": []}
        p.update(kind)
        for _ in range(rng.choice([1, 1, 2, 3])):
            p["runs"].append({"T": T, "damage": [[rng.randrange(1, T + 1), rng.randrange(n), rng.randrange(p["k"])]
                                                for _ in range(rng.choice([0, 0, 1, 4] if p["kind"] == "table" else [0, 0, 0, 0, 1]))],
                              "crash": [rng.randrange(1, T + 1), rng.randrange(n)] if rng.random() < 0.25 else None,
                              "memo": rng.random() < 0.3, "compression": rng.random() < 0.15, "fresh": rng.random() < 0.4,
                              "spoil": rng.random() < 0.2, "order": rng.choice(["AF", "AF", "TF", "SYN"]), "method": rng.random() < 0.8})
        return p

    def table(self, p):
        """The table as the caller writes it, and every neighbourhood it defines."""
        if p["kind"] == "langton":
            full = {}
            for e in LANGTON.split():
                k = tuple(int(x) for x in e[:5])
                for r in rotations(k):
                    full[r] = int(e[5])
            return None, full
        rng = random.Random(p["seed"])
        given, full = {}, {}
        for key in itertools.product(range(p["k"]), repeat=5):
            if not p["rot"]:
                if rng.random() < p["full"]:
                    given[key] = full[key] = rng.randrange(p["k"])
                continue
            orbit = sorted(set(rotations(key)))
            if orbit[0] != key:
                continue
            if rng.random() >= p["full"]:
                continue
            v = rng.randrange(p["k"])
            some = orbit[:1] if p["members"] == "first" else [rng.choice(orbit)] if p["members"] == "any" else \
                rng.sample(orbit, rng.randrange(1, len(orbit) + 1))
            for s in some:
                given[s] = v
            for s in orbit:
                full[s] = v
        items = list(given.items())
        rng.shuffle(items)
        return dict(items), full

    def start(self, ntm, p, rule):
        rows, cols = p["rows"], p["cols"]
        if p["kind"] == "table":
            if len(p["cells"]) < rows * cols or any(not 0 <= c < p["k"] for c in p["cells"]):
                raise Invalid("cells")
            return p["cells"][:rows * cols]
        want = [[0] * cols for _ in range(rows)]
        for r, c in p["at"]:
            if not (0 <= r <= rows - 10 and 1 <= c <= cols - 14):
                raise Invalid("loop")
            for i, line in enumerate(LOOP):
                for j, x in enumerate(line):
                    if x != ".":
                        want[r + i][c - 1 + j] = int(x)
        got = rule.init_loops(len(p["at"]), [a for a, _ in p["at"]], [b for _, b in p["at"]])
        want = [x for row in want for x in row]
        if [int(x) for x in got] != want:
            raise Violation("loop", "the loop at %s differs from Langton's at cells %s"
                            % (p["at"], [i for i, x in enumerate(want) if len(got) != len(want) or int(got[i]) != x][:8]))
        return want

    def make(self, ntm, p, given, sim):
        dim = (p["rows"], p["cols"])
        if p["kind"] == "langton":
            return ntm.LangtonsLoop(dim=dim)
        before = dict(given)
        rule = ntm.CTRBLRule(dim=dim, rule_table=given, add_rotations=True) if p["rot"] else \
            ntm.CTRBLRule(dim, given) if p["seed"] % 2 else ntm.CTRBLRule(dim, given, add_rotations=False)
        if given != before:
            raise Violation("altered", "the caller's rule table was altered")
        return rule

    def execute(self, plan, sim):
        ntm = boot.load()
        sim.budget = 120000
        p = plan
        rows, cols = p["rows"], p["cols"]
        if rows < 3 or cols < 3 or not 2 <= p["k"] <= 8 or rows * cols > 900:
            raise Invalid("size")
        given, full = self.table(p)
        around = {a * cols + b: (a * cols + b, (a - 1) % rows * cols + b, a * cols + (b + 1) % cols, (a + 1) % rows * cols + b,
                                 a * cols + (b - 1) % cols) for a in range(rows) for b in range(cols)}
        rule = self.make(ntm, p, given, sim)
        self.check_map(rule, around)
        if p["kind"] == "table" and dict(rule.rule_table) != full:
            raise Violation("table", "the complete table is given as %s, by definition %s" % (en.short(sorted(rule.rule_table.items())), en.short(sorted(full.items()))))
        grid = list(self.start(ntm, p, rule))
        for i, run in enumerate(p["runs"]):
            if run["fresh"]:
                rule = self.make(ntm, p, given, sim)
            if run["spoil"] and given:
                # what the caller does with its table later doesn't matter to rules made before
                keep = dict(given)
                for k in list(given)[::2]:
                    given[k] = (given[k] + 1) % p["k"]
                given.pop(next(iter(given)))
                sim.fault("table_altered")
                grid, rule = self.run(ntm, p, run, rule, keep, full, around, grid, sim, "evolution %d" % i)
                given.clear()
                given.update(keep)
            else:
                grid, rule = self.run(ntm, p, run, rule, given, full, around, grid, sim, "evolution %d" % i)
        sim.probe(p["kind"])

    def check_map(self, rule, around):
        m = rule.neighbourhood_map
        for c, (me, top, right, bottom, left) in around.items():
            h = m[c]
            if (h.center, h.top, h.right, h.bottom, h.left) != (me, top, right, bottom, left):
                raise Violation("neighbourhood", "cell %d is said to be at %r, by definition (%s)" % (c, h, (me, top, right, bottom, left)))
        if any((m[0] == m[c]) != (c == 0) for c in around):
            raise Violation("neighbourhood", "the neighbourhood of cell 0 is said to equal that of cells %s" % [c for c in around if c and m[0] == m[c]][:5])
        if sorted(rule.network.nodes) != sorted(around):
            raise Violation("neighbourhood", "the network has the nodes %s" % en.short(sorted(rule.network.nodes)))

    def run(self, ntm, p, run, rule, given, full, around, grid, sim, what):
        n, T = len(around), run["T"]
        damage = {}
        for t, c, v in run["damage"]:
            if c >= n or not 0 <= v < p["k"]:
                raise Invalid("damage")
            damage[(t, c)] = v
        states, t0, crash = [list(grid)], 0, None if run["memo"] else run["crash"]
        rng = random.Random(p["seed"] + 1)
        for _ in range(40):
            if t0 >= T:
                break
            # how far it goes, by definition
            want, missing = [states[-1]], None
            for t in range(t0 + 1, T + 1):
                old = want[-1]
                seen = [tuple(old[x] for x in around[c]) for c in range(n)]
                lost = [s for s in seen if s not in full]
                if lost:
                    missing = (t, lost)
                    break
                want.append([damage.get((t, c), full[seen[c]]) for c in range(n)])
            if crash and missing and crash[0] == missing[0]:
                crash = None        # either failure could come first
            dies = crash is not None and crash[0] - t0 < len(want) and crash[0] > t0
            until = crash[0] if dies else t0 + len(want) - 1

            def wrapped(ctx):
                sim.spend()
                if crash and [ctx.timestep + t0, ctx.node_label] == crash:
                    raise Injected("crash")
                return rule.activity_rule(ctx)

            def go(steps):
                return ntm.evolve(initial_conditions=list(states[-1]), network=rule.network, timesteps=steps,
                                  activity_rule=rule.activity_rule if run["method"] and not crash else wrapped, memoize=run["memo"],
                                  compression=run["compression"], update_order=getattr(ntm.UpdateOrder, en.ORDERS[run["order"]]),
                                  perturbation=(lambda x: damage.get((x.timestep + t0, x.node_label), x.node_activity)) if damage else None)
            if dies or missing:
                # one timestep beyond what is possible
                failed = None
                try:
                    go(until - t0 + (1 if dies else 2))
                except Injected:
                    failed = "crash"
                except Exception as e:
                    failed = "undefined" if isinstance(e, Exception) else None
                if failed is None or (failed == "crash") != bool(dies):
                    raise Violation("undefined", "%s: at t=%d %s, but the evolution %s"
                                    % (what, until if dies else missing[0], "the rule failed" if dies else "the neighbourhood %s isn't in the table"
                                       % (missing[1][0],), "went on" if failed is None else "failed for another reason (%s)" % failed))
                sim.fault("crash_in_timestep" if dies else "undefined_neighbourhood")
                if dies:
                    crash = None
                    until -= 1
            if until > t0:
                traj = en.guarded("crash", go, until - t0 + 1)
                if len(traj) != until - t0 + 1:
                    raise Violation("length", "%s: %d states for %d timesteps" % (what, len(traj), until - t0 + 1))
                for t, s in enumerate(traj[1:], t0 + 1):
                    w = want[t - t0]
                    g = [s.activities[c] for c in range(n)]
                    if len(s.activities) != n or g != w:
                        c = [c for c in range(n) if g[c] != w[c]][0]
                        old = want[t - t0 - 1]
                        raise Violation("cell", "%s t=%d: cell %d is %r, by the table %r (C,T,R,B,L = %s)"
                                        % (what, t, c, g[c], w[c], tuple(old[x] for x in around[c])))
                    states.append(g)
                    sim.state(g)
                    sim.log(what, t, g)
                    sim.stats["steps"] += 1
                    sim.stats["cells"] += n
                t0 = until
            if missing and not dies and t0 == missing[0] - 1:
                # the caller completes the table, and goes on from the last state
                if p["kind"] == "langton":
                    sim.probe("langton_undefined")
                    break
                for s in missing[1]:
                    if s not in full:
                        v = rng.randrange(p["k"])
                        given[s] = v
                        for r in (rotations(s) if p["rot"] else [s]):
                            full[r] = v
                rule = self.make(ntm, p, given, sim)
        return states[-1], rule


WORLD = C54()
