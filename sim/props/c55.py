import math
import random

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot


class Broken(Exception):
    """An instruction failed."""


class Pen:
    """A turtle, by definition: 0 degrees is up, turns are clockwise."""

    def __init__(self, x, y, o):
        self.x, self.y, self.o, self.stack, self.lines = float(x), float(y), float(o), [], []

    def forward(self, d=1):
        a = math.radians(self.o)
        nx, ny = self.x + d * math.sin(a), self.y + d * math.cos(a)
        self.lines.append((self.x, self.y, nx, ny))
        self.x, self.y = nx, ny

    def rotate(self, d):
        self.o += d

    def push(self):
        self.stack.append((self.x, self.y, self.o))

    def pop(self):
        self.x, self.y, self.o = self.stack.pop()

    def go(self, distance, *angles):
        self.forward(distance)
        for a in angles:
            self.rotate(a)


class C55(World):
    quick_runs = 3000
    thorough_runs = 150000
    rule = ("Several turtles instructed in turn (forward, rotate, push, pop, also with invalid arguments and more pops than pushes), L-systems "
            "evolved, aborted, resumed and drawn at any timestep with all forms of bindings, one of which may fail in the middle; plots and "
            "animations on a simulated display. Position, orientation and lines are compared with a model after every instruction. "
            "Non-trivial: at least one instruction; distinct by plan.")
    time_unit = "instructions (steps)"
    state_measure = "distinct rounded positions and numbers of lines"
    real = ["Turtle", "plot_L_system", "animate_L_system", "SubstitutionSystem", "netomaton.evolve"]
    stub = ["the display backend (canvas, timer, event loop)", "the pixels"]
    assumptions = ["numbers of ordinary size; agreement to 1e-9; one line at least is animated"]

    def generate(self, rng, tier):
        ops = []
        for _ in range(rng.choice([3, 8, 20, 40])):
            ops.append([rng.randrange(3), rng.choice(["forward", "forward", "forward", "rotate", "rotate", "push", "pop", "pop", "bad", "plot", "step"]),
                        rng.choice([1, 1, 2, 0.5, -1, 10, 0, 90, -45, 137.5, 360, 720.25]), rng.random() < 0.5])
        alphabet = rng.choice(["FX", "AB", "F+-", "F[]"])
        rules = [[c, "".join(rng.choice(alphabet + "+-") if c not in "[]" else c for _ in range(rng.randrange(1, 4)))] for c in alphabet if c not in "+-[]"]
        if "[" in alphabet:
            rules = [["F", rng.choice(["F[F]F", "[F]F", "FF[[F]F]"])]]
        sym = {}
        for c in "FXAB+-[]":
            if c == "[":
                sym[c] = [["push"]]
            elif c == "]":
                sym[c] = [["pop"]]
            elif c in "+-":
                sym[c] = [["rotate", 25 if c == "+" else -25]]
            else:
                sym[c] = rng.choice([[["forward"]], [["forward", rng.choice([1, 2, 0.5, -3])]], [["forward", 1], ["rotate", 60]],
                                     [["push"], ["rotate", 45], ["forward", 2], ["pop"]], [["go", 2, 30]],
                                     [["go", rng.choice([0, 1, 3]), 0, -45], ["forward"]], []])
        return {"turtles": [[rng.choice([0, 0, 3, -2.5]), rng.choice([0, 1.5]), rng.choice([0, 0, 90, -30])] for _ in range(3)], "ops": ops,
                "axiom": "".join(rng.choice([r[0] for r in rules]) for _ in range(rng.choice([1, 2, 3]))), "rules": rules, "symbols": sym,
                "T": rng.choice([1, 2, 3, 4]), "draws": [[rng.randrange(4), rng.randrange(3), rng.choice(["plot", "plot", "animate"]),
                                                         rng.randrange(12) if rng.random() < 0.25 else None, rng.choice(["list", "bare", "tuple"])]
                                                        for _ in range(rng.choice([0, 1, 2]))],
                "marker": rng.choice([None, "", "o"]), "compression": rng.random() < 0.2}

    # ---- checks -------------------------------------------------------------------------------------------------------
    @staticmethod
    def close(a, b, scale):
        return abs(a - b) <= 1e-9 * scale

    def check(self, t, m, what, full=False):
        scale = 1 + abs(m.x) + abs(m.y) + len(m.lines)
        if not (self.close(t.x, m.x, scale) and self.close(t.y, m.y, scale) and self.close(t.orientation, m.o, 1e3)):
            raise Violation("state", "%s: the turtle is at (%s, %s) looking at %s, by definition at (%s, %s) looking at %s"
                            % (what, t.x, t.y, t.orientation, m.x, m.y, m.o))
        if tuple(t.pos) != (t.x, t.y) or not self.close(t.abs, math.hypot(m.x, m.y), scale):
            raise Violation("state", "%s: pos is %s and abs %s at (%s, %s)" % (what, t.pos, t.abs, m.x, m.y))
        if len(t.trajectory) != len(m.lines):
            raise Violation("lines", "%s: %d lines instead of %d" % (what, len(t.trajectory), len(m.lines)))
        for k in (range(len(m.lines)) if full else range(max(0, len(m.lines) - 1), len(m.lines))):
            xs, ys = t.trajectory[k]
            if not self.same([xs, ys], m.lines[k], scale):
                raise Violation("lines", "%s: line %d is %s, by definition %s" % (what, k, (xs, ys), m.lines[k]))

    def same(self, got, line, scale):
        (a, b), (c, d) = [list(map(float, v)) for v in got]
        return all(self.close(x, y, scale) for x, y in zip((a, c, b, d), line))

    def shown(self, fig, m, what, first=None):
        lines = [l for ax in fig.axes for l in ax.lines]
        want = m.lines[:first] if first is not None else m.lines
        if len(lines) != len(want):
            raise Violation("drawn", "%s: %d lines are drawn instead of %d" % (what, len(lines), len(want)))
        for k, (l, w) in enumerate(zip(lines, want)):
            if not self.same([l.get_xdata(), l.get_ydata()], w, 1 + len(m.lines) + abs(m.x) + abs(m.y)):
                raise Violation("drawn", "%s: line %d is drawn as %s, by definition %s" % (what, k, (list(l.get_xdata()), list(l.get_ydata())), w))

    # ---- one run --------------------------------------------------------------------------------------------------------
    def execute(self, plan, sim):
        import matplotlib.pyplot as plt
        from .. import display
        ntm = boot.load()
        sim.budget = 40000
        if any(len(t) != 3 for t in plan["turtles"]) or len(plan["turtles"]) != 3:
            raise Invalid("turtles")
        turtles = [(ntm.Turtle(*t) if t != [0, 0, 0] else ntm.Turtle(), Pen(*t)) for t in plan["turtles"]]
        display.install()
        try:
            self.scene(ntm, plan, sim, plt, display, turtles)
        finally:
            display.uninstall()
            plt.switch_backend("Agg")

    def scene(self, ntm, plan, sim, plt, display, turtles):
        walk = self.walk(ntm, plan, sim)
        for n, (i, op, v, default) in enumerate(plan["ops"]):
            sim.spend()
            t, m = turtles[i % 3]
            what = "instruction %d (%s %s)" % (n, op, v)
            if op == "step":
                next(walk, None)      # the L-system evolves meanwhile
                continue
            if op == "plot":
                if len(m.lines) <= 60:
                    self.plot(plan, t.plot, m, sim, plt, display, what)
            elif op == "bad":
                sim.fault("invalid_instruction")
                try:
                    if default:
                        t.forward("far")
                    else:
                        t.rotate(None)
                except TypeError:
                    pass
                else:
                    raise Violation("not-refused", "%s was accepted" % what)
            elif op == "pop" and not m.stack:
                sim.fault("pop_without_push")
                try:
                    t.pop()
                except Exception:
                    pass
                else:
                    raise Violation("not-refused", "%s: a pop without a push was accepted" % what)
            elif op in ("forward", "rotate"):
                if op == "forward" and default:
                    t.forward()
                    m.forward()
                else:
                    getattr(t, op)(v)
                    getattr(m, op)(v)
            elif op in ("push", "pop"):
                getattr(t, op)()
                getattr(m, op)()
            else:
                raise Invalid("op")
            for k, (a, b) in enumerate(turtles):
                self.check(a, b, what + " (turtle %d)" % k)
            sim.stats["steps"] += 1
            sim.log(n, op, round(m.x, 6), round(m.y, 6), len(m.lines))
            sim.state((round(m.x, 4), round(m.y, 4), len(m.lines)))
        for _ in walk:
            pass
        for t, m in turtles:
            self.check(t, m, "at the end", full=True)
        for when, i, how, dies, form in plan["draws"]:
            t, m = turtles[i % 3]
            self.draw(ntm, plan, self.history[when % len(self.history)], t, m, how, dies, form, sim, plt, display)

    def walk(self, ntm, plan, sim):
        """Evolves the L-system a step at a time, resuming from the state before."""
        rules = {a: b for a, b in plan["rules"]}
        if not rules or not plan["axiom"] or plan["T"] < 1 or plan["T"] > 4 or any(not b or len(b) > 9 for b in rules.values()):
            raise Invalid("rules")
        text, used = plan["axiom"], set(plan["axiom"])
        constants = sorted({c for b in rules.values() for c in b} - set(rules))
        if not set(plan["axiom"]) <= set(rules) or any(len(a) != 1 for a in rules):
            raise Invalid("axiom")
        if any(c not in plan["symbols"] for c in list(rules) + constants):
            raise Invalid("symbols")
        s = ntm.SubstitutionSystem(plan["axiom"], rules, constants)
        traj = ntm.evolve(network=s.network, initial_conditions=s.initial_conditions, activity_rule=s.activity_rule, timesteps=1,
                          compression=plan["compression"])
        self.history = [(traj[0], text)]
        for _ in range(plan["T"] - 1):
            yield
            if len(text) > 60:
                break
            last = self.history[-1][0]
            traj = ntm.evolve(network=last.network, initial_conditions=last.activities, activity_rule=s.activity_rule, timesteps=2,
                              compression=plan["compression"])
            text = "".join(rules.get(c, c) for c in text)
            self.history.append((traj[1], text))
            sim.stats["steps"] += 1

    def figure(self, plt, nums):
        new = [x for x in plt.get_fignums() if x not in nums]
        if len(new) != 1:
            raise Violation("drawn", "the drawing opened %d figures" % len(new))
        return plt.figure(new[0])

    def plot(self, plan, call, m, sim, plt, display, what):
        nums, shown = set(plt.get_fignums()), []

        def loop():
            fig = self.figure(plt, nums)
            shown.append(1)
            fig.canvas.draw()
            self.shown(fig, m, what)
            if plan["marker"] is not None and any(l.get_marker() not in (plan["marker"], plan["marker"] or "None") for ax in fig.axes for l in ax.lines):
                raise Violation("drawn", "%s: the markers are %s" % (what, {l.get_marker() for ax in fig.axes for l in ax.lines}))
        display.Clock.loop = loop
        if plan["marker"] is None:
            call()
        else:
            call(marker=plan["marker"])
        display.Clock.loop = None
        if len(shown) != 1:
            raise Violation("drawn", "%s: the drawing was shown %d times" % (what, len(shown)))
        sim.fault("plotted")
        plt.close("all")

    def draw(self, ntm, plan, recorded, t, m, how, dies, form, sim, plt, display):
        state, text = recorded
        what = "drawing %s" % en.short(text, 80)
        n = [0]

        def bind(name):
            real = getattr(t, name)

            def f(*a):
                n[0] += 1
                if dies is not None and n[0] == dies + 1:
                    raise Broken(str(n[0]))
                return real(*a)
            return f
        acts = {name: bind(name) for name in ("forward", "rotate", "push", "pop")}

        def go(*a):
            """An instruction of the user's own, with any number of arguments."""
            n[0] += 1
            if dies is not None and n[0] == dies + 1:
                raise Broken(str(n[0]))
            t.forward(a[0])
            for angle in a[1:]:
                t.rotate(angle)
        acts["go"] = go
        bindings, steps = {}, []
        for c, ins in plan["symbols"].items():
            for x in ins:
                if x[0] not in acts or (x[0] != "go" and len(x) > 2) or (x[0] == "rotate") != (len(x) == 2 and x[0] == "rotate") or x == ["go"]:
                    raise Invalid("binding")
            made = [acts[x[0]] if len(x) == 1 and form != "tuple" else (acts[x[0]],) + tuple(x[1:]) for x in ins]
            bindings[c] = made[0] if len(made) == 1 and form != "list" else made
        for c in text:
            steps += plan["symbols"][c]
        depth = len(m.stack)
        for k, x in enumerate(steps):
            depth += {"push": 1, "pop": -1}.get(x[0], 0)
            if depth < 0:
                raise Invalid("pops")
        fails = dies is not None and dies < len(steps)
        for x in steps[:dies] if fails else steps:
            getattr(m, x[0])(*x[1:])
        if fails:
            nums, before = set(plt.get_fignums()), []
            display.Clock.loop = lambda: before.append(1)
            try:
                (ntm.plot_L_system if how == "plot" else ntm.animate_L_system)(state, t, bindings)
            except Broken:
                sim.fault("instruction_failed")
            else:
                raise Violation("swallowed", "%s: instruction %d failed and nobody was told" % (what, dies))
            if before:
                raise Violation("swallowed", "%s: instruction %d failed, but the drawing was shown" % (what, dies))
            display.Clock.loop = None
            self.check(t, m, what + " up to a failing instruction", full=True)
            # it can go on from there
            dies = None
            for x in steps:
                getattr(m, x[0])(*x[1:])
        if how == "plot" or not m.lines:
            self.plot(plan, lambda **k: ntm.plot_L_system(state, t, bindings, **k), m, sim, plt, display, what)
        else:
            nums, shown = set(plt.get_fignums()), []

            def loop():
                fig = self.figure(plt, nums)
                timer = display.Clock.timers[-1]
                fig.canvas.draw()
                for k in range(len(m.lines)):
                    timer.fire()
                    fig.canvas.flush()
                    if k in (0, 1, len(m.lines) - 1):
                        self.shown(fig, m, what + " frame %d" % k, k + 1)
                shown.append(1)
            display.Clock.loop = loop
            ntm.animate_L_system(state, t, bindings)
            display.Clock.loop = None
            if len(shown) != 1:
                raise Violation("drawn", "%s: the animation was shown %d times" % (what, len(shown)))
            sim.fault("animated")
            plt.close("all")
            display.Clock.timers.clear()
        self.check(t, m, what, full=True)
        sim.stats["steps"] += len(steps)
        sim.probe("drawn_" + how)


WORLD = C55()
