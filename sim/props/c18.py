from ..core import Invalid, NoProgress, Violation
from ..world import World
from .. import engine as en, boot


class C18(World):
    quick_runs = 36000
    thorough_runs = 400000
    rule = ("Random deterministic rule tables (some with missing rules), circular tapes and starts, run by both machine models and by a "
            "textbook interpreter, with tape cells or head states changed from outside between steps. Non-trivial: at least one "
            "step; distinct by plan.")
    state_measure = "distinct configurations (head state, head position, tape)"
    real = ["HeadCentricTuringMachine", "TapeCentricTuringMachine", "netomaton.evolve"]
    assumptions = ["tape symbols are integers or single characters; a machine object is used for one evolution; the start state is "
                   "not the terminating one; tapes of the tape-centric model have at least three cells"]

    def generate(self, rng, tier):
        ns, nsym = rng.randrange(1, 5), rng.randrange(1, 4)
        symbols = rng.choice([[0, 1, 2], ["a", "b", " "], ["0", "1", "2"], [5, -1, 7]])[:nsym]
        states = rng.choice([["q0", "q1", "q2", "H"], [0, 1, 2, 3], [1, 2, 3, 0], [1, "1", 2, "2"]])[:ns]
        complete = rng.random() < 0.7
        table = [[s, [[c, [rng.choice(states), rng.choice(symbols), rng.choice([0, 1, 2, 0, 2])]] for c in symbols
                      if complete or rng.random() < 0.75]] for s in states]
        n = rng.choice([1, 2, 3, 3, 4, 5, 8])
        T = rng.choice([1, 2, 3, 5, 10, 25])
        return {"model": rng.choice(["head", "tape", "both"]), "table": table, "symbols": symbols, "states": states,
                "tape": [rng.choice(symbols) for _ in range(n)], "start": rng.choice(states), "pos": rng.randrange(n), "T": T,
                "terminating": rng.choice([None, rng.choice(states)]), "max": rng.choice([True, True, False]),
                "hits": [[rng.randrange(1, T + 2), rng.randrange(n), rng.choice(symbols)] for _ in range(rng.choice([0, 0, 1, 3, 6]))],
                "swaps": [[rng.randrange(1, T + 2), rng.choice(states)] for _ in range(rng.choice([0, 0, 1, 3]))]}

    def execute(self, plan, sim):
        sim.budget = 20000
        table = {s: {c: list(r) for c, r in row} for s, row in plan["table"]}
        n = len(plan["tape"])
        if not (0 <= plan["pos"] < n) or plan["T"] < 1 or plan["start"] not in plan["states"]:
            raise Invalid("start")
        for s in table:
            for c in table[s]:
                if len(table[s][c]) != 3 or table[s][c][2] not in (0, 1, 2) or table[s][c][0] not in plan["states"] \
                        or table[s][c][1] not in plan["symbols"]:
                    raise Invalid("table")
        if plan["model"] in ("head", "both"):
            self.head(plan, table, sim)
        if plan["model"] in ("tape", "both") and n >= 3:
            self.tape(plan, table, sim)

    def textbook(self, table, tape, state, pos, T, terminating=None, hits=(), swaps=()):
        """Configurations from the start on; the last element is None if a rule was missing."""
        tape = list(tape)
        out = [(state, pos, list(tape))]
        for t in range(1, T):
            rule = table.get(state, {}).get(tape[pos])
            if rule is None:
                out.append(None)
                return out
            state, tape[pos], d = rule
            pos = (pos + d - 1) % len(tape)
            stop = terminating is not None and state == terminating
            for when, cell, symbol in hits:
                if when == t:
                    tape[cell] = symbol
            for when, s in swaps:
                if when == t and not stop:
                    state = s
            out.append((state, pos, list(tape)))
            if stop:
                break
        return out

    def head(self, plan, table, sim):
        ntm = boot.load()
        term = plan["terminating"]
        limit = plan["T"] if plan["max"] or term is None else None
        if term is not None and (plan["start"] == term):
            return
        swaps = {t: s for t, s in plan["swaps"] if s != term}
        bound = limit or 60
        want = self.textbook(table, plan["tape"], plan["start"], plan["pos"], bound, term, swaps=swaps.items())
        if limit is None and len(want) == 60 and want[-1] is not None:
            return         # does not halt (as far as we look)
        m = ntm.HeadCentricTuringMachine(list(plan["tape"]), table, plan["start"], plan["pos"], terminating_state=term,
                                         max_timesteps=limit)
        asked = [0]

        def source(t, a, net):
            asked[0] = t
            sim.spend()
            return m.input_function(t, a, net)

        def swap(ctx):
            state, pos = ctx.node_activity
            if ctx.timestep in swaps and not (term is not None and state == term):
                sim.fault("head_state_changed")
                return swaps[ctx.timestep], pos
            return ctx.node_activity
        run = lambda: ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=source,
                                 perturbation=swap if swaps else None)
        traj = self.go(run, want, asked, "head-centric", sim)
        if traj is None:
            return
        got = [tuple(s.activities[0]) for s in traj]
        tapes, heads = m.activities_for_plotting(traj)
        self.compare("head-centric", [(h[0], h[1], list(tp)) for h, tp in zip(got, tapes)], len(traj), want, sim)
        if len(tapes) != len(want):
            raise Violation("history", "head-centric: the tape history has %d entries for %d states" % (len(tapes), len(want)))
        self.annotations("head-centric", heads, want)

    def tape(self, plan, table, sim):
        ntm = boot.load()
        T = plan["T"]
        hits = {}
        for t, cell, symbol in plan["hits"]:
            if 0 <= cell < len(plan["tape"]):
                hits[(t, cell)] = symbol
        want = self.textbook(table, plan["tape"], plan["start"], plan["pos"], T, None, [(t, c, s) for (t, c), s in hits.items()])
        m = ntm.TapeCentricTuringMachine(len(plan["tape"]), table, plan["start"], plan["pos"])
        asked = [0]

        def rule(ctx):
            asked[0] = max(asked[0], ctx.timestep)
            sim.spend()
            return m.activity_rule(ctx)

        def hit(ctx):
            if (ctx.timestep, ctx.node_label) in hits:
                sim.fault("tape_cell_changed")
                return hits[(ctx.timestep, ctx.node_label)]
            return ctx.node_activity
        run = lambda: ntm.evolve(m.network, initial_conditions=list(plan["tape"]), activity_rule=rule, timesteps=T,
                                 perturbation=hit if hits else None)
        traj = self.go(run, want, asked, "tape-centric", sim)
        if traj is None:
            return
        heads = m.head_activities(traj)
        got = []
        for s, row in zip(traj, heads):
            pos = [i for i, x in enumerate(row) if x is not None]
            got.append((row[pos[0]] if len(pos) == 1 else pos, pos[0] if pos else None, [s.activities[i] for i in range(len(row))]))
        self.compare("tape-centric", got, len(traj), [(str(s), p, tp) for s, p, tp in want], sim)
        self.annotations("tape-centric", heads, want)

    def go(self, run, want, asked, what, sim):
        missing = want[-1] is None
        try:
            traj = run()
        except (Violation, Invalid, NoProgress):
            raise
        except Exception as e:
            if not missing:
                raise Violation("crash", "%s: unexpected %s: %s" % (what, type(e).__name__, e))
            if asked[0] != len(want) - 1:
                raise Violation("missing-rule", "%s: the missing rule was reported at t=%d, it is needed at t=%d"
                                % (what, asked[0], len(want) - 1))
            sim.fault("missing_rule")
            sim.stats["steps"] += len(want) - 1
            return None
        if missing:
            raise Violation("missing-rule", "%s: the rule needed at t=%d is missing, but the evolution went on to %d states"
                            % (what, len(want) - 1, len(traj)))
        return traj

    def compare(self, what, got, n, want, sim):
        for t, (g, w) in enumerate(zip(got, want)):
            if (g[0], g[1], list(g[2])) != (w[0], w[1], list(w[2])):
                raise Violation("configuration", "%s t=%d: configuration %s, the textbook machine has %s" % (what, t, g, w))
            sim.state(w)
            sim.log(what, t, w)
        if n != len(want):
            raise Violation("halting", "%s: ran for %d states, the textbook machine has %d" % (what, n, len(want)))
        sim.stats["steps"] += n - 1
        sim.probe(what)

    def annotations(self, what, heads, want):
        if len(heads) < len(want):
            raise Violation("history", "%s: %d head annotations for %d states" % (what, len(heads), len(want)))
        for t, (row, (s, p, tape)) in enumerate(zip(heads, want)):
            expected = [str(s) if i == p else None for i in range(len(tape))]
            if list(row) != expected:
                raise Violation("history", "%s t=%d: head annotations %s, expected %s" % (what, t, row, expected))


WORLD = C18()
