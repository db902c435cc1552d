import copy
import math
import random

from ..core import Injected, InjectedInterrupt, Invalid, NoProgress, Violation
from ..world import World
from .. import engine as en, boot


COLORS = ["#102030", "#ff8800", "#00aa55", "#776655"]


class SaveError(OSError):
    """The simulated disk or encoder failed."""


class C26(World):
    quick_runs = 1200
    thorough_runs = 60000
    rule = ("Random trajectories shown by every animation (grid, row by row, hexagonal, line plot, network, turtle) on a simulated display: "
            "random interleavings of timer ticks, redraws (immediate or deferred), resizes, snapshots, other figures opened by the user and "
            "closing, before, after and without saving to a simulated writer that may fail at setup, any frame or the end, after which the "
            "call is repeated. Non-trivial: at least one frame; distinct by plan.")
    time_unit = "display events (steps) and simulated milliseconds (sim_ms)"
    state_measure = "distinct (kind, frame shown, event) triples"
    real = ["animate_activities", "animate_plot1D", "animate_hex", "animate_network", "Turtle.animate", "matplotlib.animation and artists"]
    stub = ["the display backend (canvas, timer, event loop)", "the movie writer", "the pixels"]
    assumptions = ["every state has activities with sortable labels (of at least one node); what is shown is read from the artists on the figure"]

    def generate(self, rng, tier):
        kind = rng.choice(["grid", "grid", "rows", "hex", "line", "network", "turtle"])
        T = rng.choice([1, 2, 3, 4, 6, 9])
        rows, cols = rng.randrange(1, 4), rng.randrange(1, 4)
        long = rng.random() < 0.04
        if long:
            T = rng.choice([33, 51, 65, 101, 105, 130] if kind in ("grid", "rows", "line") else [22, 33, 42])
        elif rng.random() < 0.08:
            rows, cols = rng.choice([(1, 13), (13, 1), (11, 12), (8, 2), (10, 3)])
        events = []
        for _ in range(rng.choice([4, 10, 25])):
            events.append(rng.choice(["tick"] * 10 + ["redraw", "redraw", "resize", "snapshot", "figure", "flush", "flush", "save"]))
        if long:
            events[:] = ["play"] + [e for e in events if e != "save"]
        if rng.random() < 0.15:
            events.append("close")
            events += ["tick", "redraw", "tick"]
        fault = None
        save = rng.random() < 0.4
        if save and rng.random() < 0.5:
            fault = [rng.choice(["setup", "grab", "grab", "grab", "finish"]), rng.randrange(T), rng.randrange(2)]
            if fault[0] != "grab":
                fault[1] = 0
        return {"kind": kind, "T": T, "rows": rows, "cols": cols, "seed": rng.randrange(1 << 20), "values": rng.choice([2, 5, 1000]),
                "caption": rng.random() < 0.5, "blit": rng.random() < 0.6, "grid": rng.random() < 0.2, "margin": rng.random() < 0.7,
                "events": events, "save": save, "fault": fault, "source": rng.choice(["trajectory", "trajectory", "list", "array"]),
                "immediate": rng.random() < 0.5, "labels": rng.choice(["int", "shuffled", "str"]), "twice": rng.random() < 0.25,
                "interval": rng.choice([1, 50, 400]), "render": rng.random() < 0.05, "returned": rng.random() < 0.4, "repeat": rng.random() < 0.5, "layout": rng.choice(["shell", "dict", "list", "tuple", "dict", "list", "spring", "planar", "names"]), "limits": rng.choice([None, None, [0, 1], [-3, 7.5], [0, 2000], [-8, 0]]),
                "cmap": rng.choice(["Greys", "viridis"]), "colors": rng.choice([None, "r", "dict", "dict"]),
                "with_labels": rng.random() < 0.7, "arrows": rng.random() < 0.8}

    # ---- what is to be animated -----------------------------------------------------------------------------------------
    def material(self, ntm, plan):
        rng = random.Random(plan["seed"])
        n, T = plan["rows"] * plan["cols"], plan["T"]
        val = lambda: rng.randrange(plan["values"])
        if plan["kind"] == "turtle":
            t = ntm.Turtle(0, 0, rng.randrange(360))
            for _ in range(T):
                t.rotate(rng.choice([0, 25, 90, -45]))
                t.forward(rng.choice([1, 2, 0.5]))
                if rng.random() < 0.2:
                    t.push()
                    t.forward(-1)
                    t.pop()
            return t, [[[list(map(float, s[0])), list(map(float, s[1]))] for s in t.trajectory[:k + 1]] for k in range(len(t.trajectory))]
        if plan["kind"] == "network":
            import networkx as nx
            net = ntm.Network()
            names = list(range(1, 6))
            nets = []
            self.planar = True
            for t in range(T):
                net = net.copy()
                for _ in range(rng.randrange(1, 4)):
                    a, b = rng.choice(names), rng.choice(names)
                    net.add_edge(a, b)
                    if rng.random() < 0.3 and len(list(net.nodes)) > 1:
                        net.remove_node(rng.choice(list(net.nodes)))
                nets.append(net if list(net.nodes) else net.copy())
                if not list(nets[-1].nodes):
                    net = net.copy()
                    net.add_node(1)
                    nets[-1] = net
            traj = [ntm.State(activities={x: 0 for x in m.nodes}, network=m) for m in nets]
            frames = []
            for t, m in enumerate(nets):
                pos = self.positions(plan, t)
                if plan["layout"] == "shell":
                    circle = sorted([round(float(v), 6) + 0.0 for v in q] for q in nx.shell_layout(nx.path_graph(len(m.nodes))).values())
                self.planar = self.planar and nx.check_planarity(m.to_networkx())[0]
                frames.append([sorted(map(str, m.nodes)) if plan["with_labels"] else None, len(list(m.edges)), len(list(m.nodes)),
                               {"dict": COLORS[t % 4], "r": "r", None: "b"}[plan["colors"]],
                               sorted(list(map(float, pos[x])) for x in m.nodes) if pos else circle if plan["layout"] == "shell" else None,
                               sorted([list(map(float, pos[i])), list(map(float, pos[j]))] for i, j, _ in m.edges) if pos else
                               sorted([str(i), str(j)] for i, j, _ in m.edges) if plan["with_labels"] else None])
            return traj, frames
        if plan["kind"] == "line":
            n = max(2, n)
        rows = [[val() for _ in range(n)] for _ in range(T)]
        labels = list(range(n)) if plan["labels"] == "int" else rng.sample(range(max(50, 2 * n)), n) if plan["labels"] == "shuffled" else \
            ["".join(rng.choice("abc") for _ in range(3)) + str(i) for i in range(n)]
        if plan["source"] == "trajectory":
            order = sorted(labels)
            mixed = labels[:]
            rng.shuffle(mixed)
            net = ntm.Network()
            for x in mixed:
                net.add_node(x)
            src = [ntm.State(activities={x: row[order.index(x)] for x in mixed}, network=net) for row in rows]
        elif plan["source"] == "list":
            src = copy.deepcopy(rows)
        else:
            import numpy as np
            src = np.array(rows)
        return src, rows

    @staticmethod
    def positions(plan, t):
        if plan["layout"] not in ("dict", "list", "tuple"):
            return None
        j = 0 if plan["layout"] == "dict" else t
        return {x: (x * (j + 1) % 7, x * x % 5) for x in range(1, 6)}

    @staticmethod
    def frames(plan, rows):
        k, r, c = plan["kind"], plan["rows"], plan["cols"]
        if k in ("grid", "hex"):
            return [[row[i * c:(i + 1) * c] for i in range(r)] for row in rows]
        if k == "rows":
            return [[list(x) for x in rows[:t + 1]] + [[0] * (r * c)] * (len(rows) - t - 1) for t in range(len(rows))]
        return rows

    def view(self, plan, fig):
        import matplotlib.collections as mc
        ax = fig.axes[0]
        k = plan["kind"]
        title = ax.get_title()
        if k in ("grid", "rows", "hex"):
            for x in list(ax.images) + [x for x in ax.collections if isinstance(x, mc.PatchCollection)]:
                if x.get_cmap().name != plan["cmap"] or plan["limits"] and tuple(x.get_clim()) != tuple(plan["limits"]):
                    raise Violation("colours", "colours by %s from %s, asked for %s from %s"
                                    % (x.get_cmap().name, x.get_clim(), plan["cmap"], plan["limits"]))
                first = fig.__dict__.setdefault("_first_limits", tuple(x.get_clim()))
                if tuple(x.get_clim()) != first:
                    raise Violation("colours", "a colour stands for %s in one frame and %s in another" % (first, x.get_clim()))
        if k in ("grid", "rows", "hex") and not (plan["caption"] and k != "hex") and title != "animation":
            raise Violation("caption", "the title is %r instead of %r" % (title, "animation"))
        if k in ("grid", "rows"):
            return [[en.plain(v) for v in row] for row in ax.images[0].get_array().tolist()] if len(ax.images) == 1 else len(ax.images), title
        if k == "hex":
            p = [x for x in ax.collections if isinstance(x, mc.PatchCollection)]
            if len(p) != 1 or p[0].get_array() is None:
                return None, title
            v = [en.plain(x) for x in p[0].get_array().tolist()]
            # rows of hexagons, every other one shifted by half a hexagon: to the right in grids of an odd number of rows, else to the left
            half = 0.5 if plan["rows"] % 2 else -0.5
            at = [(round(float(q.vertices[:6, 0].mean()), 6), round(float(q.vertices[:6, 1].mean()), 6)) for q in p[0].get_paths()]
            want = {(x, y): (round(math.sqrt(3) * (x + half * (y % 2)), 6), round(1.5 * y, 6)) for y in range(plan["rows"]) for x in range(plan["cols"])}
            if sorted(at) != sorted(want.values()) or not ax.yaxis_inverted():
                raise Violation("frame", "the hexagons are at %s instead of %s" % (at, sorted(want.values())))
            by_place = dict(zip(at, v))
            v = [by_place[want[(x, y)]] for y in range(plan["rows"]) for x in range(plan["cols"])]
            return [v[i * plan["cols"]:(i + 1) * plan["cols"]] for i in range(plan["rows"])], title
        if k == "line":
            if len(ax.lines) == 1 and list(map(float, ax.lines[0].get_xdata())) != [j * 1.5 - 2 for j in range(len(self.rows[0]))]:
                raise Violation("frame", "the line is drawn over %s" % list(ax.lines[0].get_xdata()))
            return [en.plain(x) for x in list(ax.lines[0].get_ydata())] if len(ax.lines) == 1 else len(ax.lines), title
        if k == "turtle":
            return [[list(map(float, l.get_xdata())), list(map(float, l.get_ydata()))] for l in ax.lines], title
        texts = sorted(t.get_text() for t in ax.texts)
        points = [x for x in ax.collections if isinstance(x, mc.PathCollection)]
        lines = [x for x in ax.collections if isinstance(x, mc.LineCollection)]
        links = [a._posA_posB for a in ax.patches if getattr(a, "_posA_posB", None)] + [(s[0], s[-1]) for x in lines for s in x.get_segments()]
        import matplotlib.colors as mcolors
        explicit = plan["layout"] in ("dict", "list", "tuple")
        colors = {mcolors.to_hex(c) for x in points for c in x.get_facecolor()}
        names = [c for c in COLORS + ["r", "b"] if {mcolors.to_hex(c)} == colors]
        return [texts if plan["with_labels"] else None, len(ax.patches) + sum(len(x.get_segments()) for x in lines),
                sum(len(x.get_offsets()) for x in points), names[0] if names else sorted(colors),
                sorted([round(float(v), 6) + 0.0 for v in p] for x in points for p in x.get_offsets()) if plan["layout"] == "shell" else
                sorted(list(map(float, p)) for x in points for p in x.get_offsets()) if explicit else None,
                sorted([[round(float(v), 9) for v in q] for q in ends] for ends in links) if explicit else
                sorted([self.nearest(ax, q) for q in ends] for ends in links) if plan["with_labels"] else None], title

    @staticmethod
    def nearest(ax, place):
        """The name written at a place."""
        at = [x.get_text() for x in ax.texts if math.dist(x.get_position(), place) < 1e-9]
        return at[0] if len(at) == 1 else at

    def call(self, ntm, plan, src, save):
        k = plan["kind"]
        kw = {"save": save, "interval": plan["interval"]}
        shape = (plan["rows"], plan["cols"]) if k in ("grid", "hex") else (plan["rows"] * plan["cols"],)
        if k in ("grid", "rows", "hex"):
            kw["colormap"] = plan["cmap"]
            if plan["limits"]:
                kw["vmin"], kw["vmax"] = plan["limits"]
        if k in ("grid", "rows"):
            return ntm.animate_activities(src, title="animation", shape=shape, blit=plan["blit"], with_timestep=plan["caption"],
                                          show_grid=plan["grid"], show_margin=plan["margin"], **kw)
        if k == "hex":
            return ntm.animate_hex(src, title="animation", shape=shape, **kw)
        if k == "line":
            return ntm.animate_plot1D([j * 1.5 - 2 for j in range(len(self.rows[0]))], src, **kw)
        if k == "turtle":
            return src.animate(repeat=plan["repeat"], **kw)
        pos = [self.positions(plan, t) for t in range(plan["T"])]
        kinds = ["shell", "planar" if self.planar else "shell", "spring"]
        layout = {"shell": "shell", "dict": pos[0], "list": pos, "tuple": tuple(pos), "spring": "spring", "planar": kinds[1],
                  "names": [kinds[(plan["seed"] + t) % 3] for t in range(plan["T"])]}[plan["layout"]]
        if plan["colors"]:
            kw["node_color"] = {t: COLORS[t % 4] for t in range(plan["T"])} if plan["colors"] == "dict" else plan["colors"]
        return ntm.animate_network(src, with_timestep=plan["caption"], layout=layout, with_labels=plan["with_labels"],
                                   with_arrows=plan["arrows"], show=not plan["returned"], **kw)

    # ---- one run ----------------------------------------------------------------------------------------------------------
    def execute(self, plan, sim):
        import matplotlib.pyplot as plt
        from .. import display
        ntm = boot.load()
        sim.budget = 4000
        if plan["T"] < 1 or plan["rows"] < 1 or plan["cols"] < 1 or plan["values"] < 1 or plan["interval"] < 1:
            raise Invalid("size")
        if plan["kind"] not in ("grid", "rows", "hex", "line", "network", "turtle"):
            raise Invalid("kind")
        display.install()
        try:
            self.scene(ntm, plan, sim, plt, display)
        finally:
            display.uninstall()
            plt.switch_backend("Agg")

    def scene(self, ntm, plan, sim, plt, display):
        if plan["kind"] == "hex":
            plan["source"] = "trajectory"
        src, self.rows = self.material(ntm, plan)
        if plan["kind"] == "line" and plan["source"] == "array":
            src = src.tolist()
        before = self.freeze(plan, src)
        frames = self.frames(plan, self.rows)
        # self-loops and parallel links are drawn as patches; without arrows as line segments
        display.SimCanvas.immediate, display.SimCanvas.render = plan["immediate"], plan["render"]
        display.SimWriter.view = lambda fig: self.view(plan, fig)
        for round_ in range(2 if plan["twice"] or plan["fault"] else 1):
            fault = plan["fault"] if round_ == 0 and plan["save"] else None
            display.SimWriter.events = []
            exc = None
            if fault:
                exc = [SaveError(28, "no space left (simulated)"), InjectedInterrupt("interrupted")][fault[2] % 2]
                display.SimWriter.fault = (fault[0], fault[1], exc)
            shown = []
            nums = set(plt.get_fignums())

            def loop():
                shown.append(1)
                new = [x for x in plt.get_fignums() if x not in nums]
                if len(new) != 1:
                    raise Violation("figures", "the animation opened %d figures" % len(new))
                self.drive(plan, plt.figure(new[0]), frames, sim, plt, display)
            display.Clock.loop = loop
            raised = None
            plan.pop("ani", None)
            try:
                ani = self.call(ntm, plan, src, plan["save"])
                if plan["kind"] == "network" and plan["returned"]:
                    # the caller drives the animation: it shows and saves it whenever it likes
                    first = list(display.SimWriter.events)
                    plan["ani"] = ani
                    loop()
                    display.SimWriter.events = first
            except (Violation, Invalid, NoProgress):
                raise
            except BaseException as e:
                raised = e
            display.Clock.loop = None
            if exc is not None and ("fault", fault[0]) in display.SimWriter.events:
                sim.fault("save_" + fault[0] + ("_interrupted" if isinstance(exc, InjectedInterrupt) else ""))
                if raised is not exc:
                    raise Violation("save-swallowed", "saving failed at %s %d with %r, the animation call %s"
                                    % (fault[0], fault[1], exc, "returned" if raised is None else "raised %r" % raised))
                if shown:
                    raise Violation("save-swallowed", "saving failed at %s, but the animation was shown" % fault[0])
            elif raised is not None:
                raise Violation("crash", "unexpected %s: %s" % (type(raised).__name__, raised))
            else:
                if not shown:
                    raise Violation("not-shown", "the animation was never shown")
                if plan["save"]:
                    self.saved(plan, frames, display.SimWriter.events, sim)
            plt.close("all")
            display.SimWriter.fault = None
            display.Clock.timers.clear()
            if self.freeze(plan, src) != before:
                raise Violation("altered", "animating altered what was animated: %s to %s" % (before, self.freeze(plan, src)))
        sim.stats["sim_ms"] += display.Clock.now

    @staticmethod
    def freeze(plan, src):
        if plan["kind"] == "turtle":
            return copy.deepcopy((src.trajectory, src.x, src.y, src.orientation))
        if plan["kind"] == "network":
            return [(sorted(s.network.nodes), sorted((a, b) for a, b, _ in s.network.edges), sorted(s.activities.items())) for s in src]
        if plan["source"] == "trajectory":
            return [list(s.activities.items()) for s in src]
        return copy.deepcopy(src if isinstance(src, list) else src.tolist())

    def caption(self, plan, index):
        return "timestep: %d" % (index + 1) if plan["caption"] else None

    def compare(self, plan, got, frames, indices, what):
        """The figure must show one of the given frames, under that frame's caption. Returns the frame shown."""
        captioned = plan["caption"] and plan["kind"] in ("grid", "rows", "network")
        for i in indices:
            if got[0] == frames[i] and (not captioned or got[1] == self.caption(plan, i)):
                return i
        cls = "caption" if any(got[0] == frames[i] for i in indices) else "frame"
        raise Violation(cls, "%s: shows %s (title %r), expected timestep %s: %s" % (what, got[0], got[1], "/".join(str(i + 1) for i in indices),
                                                                               [frames[i] for i in indices][:2]))

    def saved(self, plan, frames, events, sim):
        got = [e[1] for e in events if e[0] == "frame"]
        for k, g in enumerate(got):
            if k < len(frames):
                self.compare(plan, g, frames, [k], "saved frame %d" % (k + 1))
        if len(got) != len(frames):
            raise Violation("saved-frames", "%d frames were saved for %d timesteps" % (len(got), len(frames)))
        if [e[0] for e in events if e[0] != "frame"] != ["setup", "finish"]:
            raise Violation("saved-frames", "the writer was used like this: %s" % [e[0] for e in events])
        sim.probe("saved")

    def drive(self, plan, fig, frames, sim, plt, display):
        canvas, N = fig.canvas, len(frames)
        timers = list(display.Clock.timers)
        if len(timers) != 1:
            raise Violation("timers", "the animation uses %d timers" % len(timers))
        timer = timers[0]
        repeats = plan["kind"] != "turtle" or plan["repeat"]
        pos, closed = 0, False
        # a display that draws at once starts the animation before it is saved: until the first tick it shows the last frame saved
        cur = [0, N - 1] if plan["save"] and plan["immediate"] else [0]
        canvas.draw()           # the window appears
        self.compare(plan, self.view(plan, fig), frames, cur, "at first")
        for n, ev in enumerate([e for ev in plan["events"] for e in (["tick"] * (N + 2) if ev == "play" else [ev])]):
            sim.spend()
            what = "event %d (%s) after frame %s" % (n, ev, cur)
            if ev == "tick":
                if closed:
                    timer.fire()
                    continue
                if not timer.fire():
                    sim.probe("tick_while_stopped")
                elif pos < N:
                    cur = [pos]
                    pos += 1
                elif repeats:
                    # the cycle is over: the last timestep may be shown for one more tick, or the first one already
                    cur, pos = [0, N - 1], 0
                    sim.probe("wrapped")
                else:
                    sim.probe("ended")
            elif ev == "redraw":
                canvas.draw()
                sim.fault("redraw")
            elif ev == "flush":
                canvas.flush()
                sim.fault("deferred_draw")
            elif ev == "resize":
                if not closed:
                    canvas.resized(1.25 if n % 2 else 0.8)
                    cur = sorted({0} | set(cur))
                    sim.fault("resize")
            elif ev == "snapshot":
                fig.savefig("snapshot", format="sim")
                sim.fault("snapshot")
            elif ev == "figure":
                plt.figure()
                plt.plot([0, 1], [1, 0])
                sim.fault("other_figure")
            elif ev == "save" and plan.get("ani") is not None and not closed:
                display.SimWriter.events = []
                exc = SaveError(28, "no space left (simulated)") if n % 3 == 0 else None
                if exc:
                    display.SimWriter.fault = ("grab", n % N, exc)
                try:
                    plan["ani"].save("evolved.gif", writer="imagemagick")
                except SaveError as e:
                    if e is not exc:
                        raise
                    sim.fault("save_while_shown_failed")
                else:
                    if exc:
                        raise Violation("save-swallowed", "%s: the save failed and nobody was told" % what)
                    self.saved(plan, frames, display.SimWriter.events, sim)
                    sim.fault("save_while_shown")
                cur = list(range(N))
            elif ev == "close":
                from matplotlib.backend_bases import CloseEvent
                CloseEvent("close_event", canvas)._process()
                closed = True
                sim.fault("closed")
            if closed:
                continue
            i = self.compare(plan, self.view(plan, fig), frames, cur, what)
            cur = [i] if ev == "tick" or len(cur) > 1 else cur
            sim.state((plan["kind"], i, ev))
            sim.log(n, ev, i)
            sim.stats["steps"] += 1


WORLD = C26()
