import copy
import math
import random

import numpy as np

from ..core import InjectedInterrupt, Invalid, Violation
from ..world import World
from .. import engine as en, boot, seams

MAPS = ["Greys", "viridis", "jet"]
COLORS = ["r", "#102030", "blue", "g", "#ff8800", "k"]
KINDS = ["activities", "activities", "grid", "multiple", "hex", "plot1D", "plot1D", "poincare", "bifurcation", "degrees", "network", "tour", "L-system", "binary"]


class DisplayError(RuntimeError):
    """The simulated display failed."""


class C56(World):
    quick_runs = 1500
    thorough_runs = 60000
    rule = ("Sequences of plots of all kinds, of random data from random sources, in one process on a simulated display; creating the k-th artist, "
            "showing, or unpacking a recorded state fails, or the user interrupts, after which the call is repeated; everything on the figures "
            "is read back when they are shown. Non-trivial: at least one plot; distinct by plan.")
    state_measure = "distinct (kind, picture) pairs"
    time_unit = "plots (steps)"
    real = ["plot_activities, plot_grid, plot_grid_multiple, plot_hex_grid, plot1D, poincare_plot, bifurcation_plot, plot_degree_distribution, "
            "plot_network, HopfieldTankTSPNet.plot_tour, plot_L_system, binarize_for_plotting, ncr, lattice, lattice_pos", "matplotlib artists", "networkx drawing"]
    stub = ["the display backend (canvas, event loop)", "the pixels"]
    assumptions = ["figures are closed between plots, as a display does when its window is closed", "what is shown is read from the artists on the figure",
                   "node degrees from 1 on are plotted"]

    # ---- plans ------------------------------------------------------------------------------------------------------------
    def generate(self, rng, tier):
        plots = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            kind = rng.choice(KINDS)
            p = {"kind": kind, "seed": rng.randrange(1 << 20), "rows": rng.choice([1, 2, 3, 4] * 4 + [9, 10]), "cols": rng.choice([1, 2, 3, 4] * 4 + [9]), "T": rng.choice([1, 1, 2, 3, 5, 9]),
                 "source": rng.choice(["trajectory", "trajectory", "list", "array", "tuple"]), "compression": rng.random() < 0.4, "shaped": rng.random() < 0.5,
                 "slice": rng.randrange(-9, 9) if rng.random() < 0.6 else None, "title": rng.choice([None, "t", "Rule 30"]), "cmap": rng.choice([None] + MAPS),
                 "limits": rng.choice([None, None, [0, 1], [-2.5, 9], [3, 100], [-4, 0]]), "annotate": rng.random() < 0.3, "lines": rng.random() < 0.3,
                 "values": rng.choice([2, 2, 6, 1000]), "floats": rng.random() < 0.3, "labels": rng.choice(["int", "shuffled", "str"]),
                 "series": rng.choice([0, 1, 2, 3, 4]), "twin": rng.random() < 0.35, "style": rng.randrange(1 << 20), "fault": None, "twice": rng.random() < 0.2}
            if rng.random() < 0.35:
                p["fault"] = [rng.choice(["artist", "artist", "artist", "show", "unpack"]), int(2 ** (rng.random() * 8)) - 1, rng.randrange(3)]
                if p["fault"][0] == "unpack":
                    p["fault"][1] = rng.randrange(p["T"])
                    p["compression"], p["source"] = True, "trajectory"
            plots.append(p)
        return {"plots": plots, "render": rng.random() < 0.04}

    # ---- one run ----------------------------------------------------------------------------------------------------------
    def execute(self, plan, sim):
        import matplotlib
        import matplotlib.pyplot as plt
        from .. import display
        ntm = boot.load()
        sim.budget = 4000
        if not plan["plots"]:
            raise Invalid("no plots")
        display.install()
        display.SimCanvas.render = plan["render"]
        settings = dict(matplotlib.rcParams)
        try:
            for i, p in enumerate(plan["plots"]):
                if p["kind"] not in KINDS or min(p["rows"], p["cols"], p["T"], p["values"]) < 1 or p["series"] < 0:
                    raise Invalid("plot")
                call, picture, inputs = getattr(self, "make_" + {"L-system": "lsystem"}.get(p["kind"], p["kind"]))(ntm, p, random.Random(p["seed"]))
                before = repr([f() for f in inputs])
                for again in range(2 if p["fault"] or p["twice"] else 1):
                    self.one(p, call, picture, "plot %d (%s%s)" % (i, p["kind"], ", repeated" if again else ""), None if again else p["fault"], sim, plt, display)
                    if repr([f() for f in inputs]) != before:
                        raise Violation("altered", "plotting (%s) altered what was plotted" % p["kind"])
                changed = [k for k in settings if k != "backend" and matplotlib.rcParams[k] != settings[k]]
                if changed:
                    raise Violation("settings", "plotting (%s) changed the settings %s" % (p["kind"], changed))
        finally:
            seams.S.unpack = None
            display.uninstall()
            plt.switch_backend("Agg")

    def one(self, p, call, picture, what, fault, sim, plt, display):
        import matplotlib.artist as artist
        shown, fired = [], []
        exc = [DisplayError("the display is gone"), MemoryError("simulated"), InjectedInterrupt("interrupted")][fault[2] % 3] if fault else None
        left = [fault[1] if fault else -1]

        def tick(where):
            if fault and fault[0] == where and not fired:
                if left[0] <= 0 or where == "show":
                    fired.append(where)
                    raise exc
                left[0] -= 1

        def loop():
            tick("show")
            figs = [plt.figure(n) for n in plt.get_fignums()]
            for f in figs:
                f.canvas.draw()
            shown.append(picture(figs))
        display.Clock.loop = loop
        seams.S.unpack = lambda o: tick("unpack")
        init = artist.Artist.__init__

        def counted(self, *a, **k):
            tick("artist")
            return init(self, *a, **k)
        artist.Artist.__init__ = counted
        raised = None
        np.random.seed(p["seed"] % (1 << 32))       # the spring layout draws from it
        try:
            call()
        except (Violation, Invalid):
            raise
        except BaseException as e:
            raised = e
        finally:
            artist.Artist.__init__ = init
            seams.S.unpack = None
            display.Clock.loop = None
        sim.stats["steps"] += 1
        if fired:
            sim.fault(fired[0] + "_" + type(exc).__name__)
            if raised is not exc:
                raise Violation("swallowed", "%s: %r at %s, but the call %s" % (what, exc, fired[0], "returned" if raised is None else "raised %r" % raised))
            if shown:
                raise Violation("swallowed", "%s: failed after it was shown" % what)
        elif raised is not None:
            raise Violation("crash", "%s: unexpected %s: %s" % (what, type(raised).__name__, raised))
        elif len(shown) != 1:
            raise Violation("not-shown", "%s: shown %d times" % (what, len(shown)))
        else:
            got, want = shown[0]
            for k in want:
                if got.get(k) != want[k]:
                    raise Violation("picture", "%s: %s: the figure has %s, expected %s" % (what, k, en.short(got.get(k)), en.short(want[k])))
            sim.state((p["kind"], repr(want)))
            sim.probe(p["kind"])
            sim.log(what, repr(want))
        plt.close("all")

    # ---- material -----------------------------------------------------------------------------------------------------------
    def rows(self, p, rng):
        val = lambda: rng.randrange(-3, 3 + p["values"]) + (rng.choice([0.0, 0.25]) if p["floats"] else 0) if p["values"] > 2 else rng.randrange(2)
        return [[val() for _ in range(p["rows"] * p["cols"])] for _ in range(p["T"])]

    def source(self, ntm, p, rows, rng, kind=None):
        """The rows as a trajectory (nodes listed in any order, recorded compressed or not), a list, a tuple or an array."""
        kind = kind or p["source"]
        n = len(rows[0])
        if kind == "trajectory":
            labels = list(range(n)) if p["labels"] == "int" else rng.sample(range(2 * n + 3), n) if p["labels"] == "shuffled" else \
                ["".join(rng.choice("abc") for _ in range(3)) + str(i) for i in range(n)]
            order = sorted(labels)
            net = ntm.Network()
            for x in labels:
                net.add_node(x)
            src = [ntm.State(activities={x: row[order.index(x)] for x in labels}, network=net, compression=p["compression"]) for row in rows]
            return src, lambda: [list(s.activities.items()) for s in src]
        src = {"list": list, "tuple": tuple, "array": np.array}[kind](copy.deepcopy(rows) if kind != "tuple" else [tuple(r) for r in rows])
        return src, lambda: (type(src).__name__, [list(r) for r in src])

    def look(self, p):
        kw = {}
        if p["title"] is not None:
            kw["title"] = p["title"]
        if p["cmap"] is not None:
            kw["colormap"] = p["cmap"]
        if p["limits"]:
            kw["vmin"], kw["vmax"] = p["limits"]
        return kw

    # ---- grids --------------------------------------------------------------------------------------------------------------
    def shape(self, p, rows):
        """Keyword arguments and the grid they ask for."""
        if not p["shaped"]:
            return {}, rows
        kw = {"shape": (p["rows"], p["cols"])}
        t = -1
        if p["slice"] is not None:
            t = p["slice"] % (2 * len(rows)) - len(rows)
            kw["slice"] = t
        row = rows[t]
        return kw, [row[i * p["cols"]:(i + 1) * p["cols"]] for i in range(p["rows"])]

    @staticmethod
    def image(ax):
        if len(ax.images) != 1:
            return "%d images" % len(ax.images)
        return [[float(v) for v in row] for row in ax.images[0].get_array().tolist()]

    def image_want(self, p, grid):
        flat = [float(v) for row in grid for v in row]
        return {"cells": [[float(v) for v in row] for row in grid], "colours": p["cmap"] or "Greys", "title": p["title"] or "",
                "limits": tuple(map(float, p["limits"] or (min(flat), max(flat))))}

    def image_got(self, ax):
        return {"cells": self.image(ax), "colours": ax.images[0].get_cmap().name, "title": ax.get_title(), "limits": tuple(map(float, ax.images[0].get_clim()))}

    def make_activities(self, ntm, p, rng, fn=None):
        rows = self.rows(p, rng)
        src, frozen = self.source(ntm, p, rows, rng, None if fn is None else p["source"] if p["source"] != "trajectory" else "list")
        kw, grid = self.shape(p, rows)
        want = self.image_want(p, grid)
        notes = None
        if p["annotate"]:
            notes = [[rng.choice([None, "q", "A1", 7, 0, ""]) for _ in row] for row in grid]
            kw["node_annotations"] = notes
        want["annotations"] = sorted((j, i, "" if x is None else str(x)) for i, r in enumerate(notes or []) for j, x in enumerate(r))
        if p["lines"]:
            kw["show_grid"] = True
            want["lines"] = ([j - 0.5 for j in range(len(grid[0]) + 1)], [i - 0.5 for i in range(len(grid) + 1)])
        kw.update(self.look(p))

        def picture(figs):
            if len(figs) != 1 or len(figs[0].axes) != 1:
                return {"figures": [len(f.axes) for f in figs]}, {"figures": [1]}
            ax = figs[0].axes[0]
            got = self.image_got(ax)
            got["annotations"] = sorted((int(t.get_position()[0]), int(t.get_position()[1]), t.get_text()) for t in ax.texts)
            if p["lines"]:
                got["lines"] = (list(map(float, ax.get_xticks())), list(map(float, ax.get_yticks())))
            return got, want
        return lambda: (fn or ntm.plot_activities)(src, **kw), picture, [frozen, lambda: notes]

    def make_binary(self, ntm, p, rng):
        """The numbers that one node goes through, drawn digit by digit."""
        style = random.Random(p["style"])
        top = style.choice([1, 2, 9, 9, 63, 90, 200])
        one = style.choice([int, int, float]) if top < 50 else int
        numbers = [int(2 ** (top * rng.random())) + rng.randrange(2) - 1 for _ in range(p["T"] + style.choice([0, 0, 20]))]
        rows = [[one(v)] for v in numbers]
        src = np.array(rows) if p["source"] == "array" and top < 60 else [tuple(r) for r in rows] if p["source"] == "tuple" else rows
        width = max(1, max(numbers).bit_length())
        grid = [[v >> (width - 1 - j) & 1 for j in range(width)] for v in numbers]
        kw = self.look(p)
        want = self.image_want(p, grid)

        def picture(figs):
            if len(figs) != 1 or len(figs[0].axes) != 1:
                return {"figures": [len(f.axes) for f in figs]}, {"figures": [1]}
            return self.image_got(figs[0].axes[0]), want
        return lambda: ntm.plot_activities(ntm.binarize_for_plotting(src), **kw), picture, [lambda: [list(r) for r in src]]

    def make_grid(self, ntm, p, rng):
        return self.make_activities(ntm, p, rng, ntm.plot_grid)

    def make_multiple(self, ntm, p, rng):
        count = 1 + (p["series"] % 3 if p["style"] % 5 else 3 + p["style"] % 4)
        sets = [self.rows(p, rng) for _ in range(count)]
        src = [self.source(ntm, p, rows, rng, p["source"] if p["source"] != "trajectory" else "list") for rows in sets]
        asked = [self.shape(p, rows) for rows in sets]
        kw = dict(asked[0][0], **self.look(p))
        kw.pop("title", None)
        titles = ["no. %d" % i if (i + p["style"]) % 4 else "" for i in range(count)] if p["title"] else None
        if titles:
            kw["titles"] = titles

        def picture(figs):
            want = [dict(self.image_want(p, grid), title=titles[i] if titles else "") for i, (_, grid) in enumerate(asked)]
            return {"grids": [self.image_got(f.axes[0]) if len(f.axes) == 1 else len(f.axes) for f in figs]}, {"grids": want}
        return lambda: ntm.plot_grid_multiple([s for s, _ in src], **kw), picture, [f for _, f in src] + [lambda: titles]

    def make_hex(self, ntm, p, rng):
        import matplotlib
        from matplotlib.patches import RegularPolygon
        rows = self.rows(p, rng)
        src, frozen = self.source(ntm, p, rows, rng, "trajectory")
        kw, grid = self.shape(p, rows)
        kw.update(self.look(p))
        if p["annotate"]:
            kw["edgecolor"] = "b"
        flat = [v for r in grid for v in r]
        lo, hi = p["limits"] or (min(flat), max(flat))
        cmap = matplotlib.colormaps[p["cmap"] or "Greys"]
        color = lambda v: tuple(round(float(x), 6) for x in cmap(0.0 if hi == lo else (v - lo) / (hi - lo)))
        # rows of hexagons, every other one shifted by half a hexagon: to the right in grids of an odd number of rows, else to the left
        half = 0.5 if len(grid) % 2 else -0.5
        want = sorted((round(math.sqrt(3) * (x + half * (y % 2)), 6), round(1.5 * y, 6), color(v)) for y, r in enumerate(grid) for x, v in enumerate(r))

        def picture(figs):
            if len(figs) != 1 or len(figs[0].axes) != 1:
                return {"figures": [len(f.axes) for f in figs]}, {"figures": [1]}
            ax = figs[0].axes[0]
            hexes = [x for x in ax.patches if isinstance(x, RegularPolygon)]
            got = {"hexagons": sorted((round(float(h.xy[0]), 6), round(float(h.xy[1]), 6), tuple(round(float(c), 6) for c in h.get_facecolor())) for h in hexes),
                   "form": {(h.numvertices, round(float(h.radius), 6), round(float(h.orientation) % (math.pi / 3), 6)) for h in hexes},
                   "edges": {tuple(h.get_edgecolor()) for h in hexes} if p["annotate"] else None,
                   "title": ax.get_title(), "down": ax.yaxis_inverted()}
            return got, {"hexagons": want, "title": p["title"] or "", "down": True, "form": {(6, 1.0, round(math.radians(60) % (math.pi / 3), 6))},
                         "edges": {(0.0, 0.0, 1.0, 1.0)} if p["annotate"] else None}
        return lambda: ntm.plot_hex_grid(src, **kw), picture, [frozen]

    # ---- lines and points ---------------------------------------------------------------------------------------------------
    def make_plot1D(self, ntm, p, rng):
        import matplotlib.colors as mc
        rng2 = random.Random(p["style"])
        m = p["series"]
        n = max(2, p["T"])
        num = lambda: round(rng.uniform(-5, 5), 3) if p["floats"] else rng.randrange(-9, 10)
        x = sorted(num() for _ in range(n))
        ys = [[num() for _ in range(n)] for _ in range(max(1, m))]
        multi = m > 0
        twin = p["twin"] and m >= 2
        y = ys[0] if not multi else ys
        if p["source"] == "array":
            y = np.array(y)
        axes = 2 if twin else 1
        one = lambda f: f() if rng2.random() < 0.5 else None
        kw, want = {}, {}
        label = rng2.choice([None, "lab", 0, 7, 2.5, "many", "numbers"])
        labels = [None] * len(ys)
        if label in ("many", "numbers"):
            if not multi:
                labels = [0 if label == "numbers" else "s0"]
            else:
                labels = [i if label == "numbers" else "s%d" % i for i in range(m)]
            kw["label"] = list(labels)
        elif label is not None:
            labels = [label] * len(ys)
            kw["label"] = label
        color = rng2.choice([None, None, "g", "many"])
        colors = [None] * len(ys)
        if color == "many":
            colors = [COLORS[i % 6] for i in range(len(ys))]
            kw["color"] = tuple(colors) if rng2.random() < 0.3 else list(colors)
        elif color:
            colors = [color] * len(ys)
            kw["color"] = color
        if rng2.random() < 0.5:
            kw["xlabel"] = "the x"
            want["xlabel"] = ["the x"] * axes
        ylabel = rng2.choice([None, "y", "two"])
        if ylabel == "two" and twin:
            kw["ylabel"] = ["left", "right"]
            want["ylabel"] = ["left", "right"]
        elif ylabel:
            kw["ylabel"] = "y"
            want["ylabel"] = ["y"] * axes
        if ylabel and color:
            want["ylabel_color"] = [mc.to_hex(colors[max(i for i in range(len(ys)) if i % axes == a)]) for a in range(axes)]
        if rng2.random() < 0.4:
            kw["xlim"] = (-20.0, 30.5)
            want["xlim"] = [(-20.0, 30.5)] * axes
        ylim = rng2.choice([None, None, "one", "two"])
        if ylim == "two" and twin:
            kw["ylim"] = [(-1.0, 2.0), (0.0, 50.0)]
            want["ylim"] = [(-1.0, 2.0), (0.0, 50.0)]
        elif ylim:
            kw["ylim"] = (-11.0, 12.5)
            want["ylim"] = [(-11.0, 12.5)] * axes
        if label is not None and rng2.random() < 0.4:
            kw["legend"] = {"loc": "upper right"}
            want["legend"] = [[str(labels[i]) for i in range(len(ys)) if i % axes == a] for a in range(axes)]
        if p["title"]:
            kw["title"] = p["title"]
            want["title"] = p["title"]
        if rng2.random() < 0.2:
            kw["tight_layout"] = {"pad": 2.0}
        if twin:
            kw["twinx"] = True
        want["axes"] = axes
        want["lines"] = [[[list(map(float, x)), list(map(float, ys[i])), str(labels[i]) if labels[i] is not None else None, mc.to_hex(colors[i]) if colors[i] else None]
                          for i in range(len(ys)) if i % axes == a] for a in range(axes)]

        def picture(figs):
            if len(figs) != 1:
                return {"figures": len(figs)}, {"figures": 1}
            ax = figs[0].axes
            if len(ax) != axes:
                return {"axes": len(ax)}, {"axes": axes}
            got = {"axes": len(ax), "xlabel": [a.get_xlabel() for a in ax], "ylabel": [a.get_ylabel() for a in ax],
                   "ylabel_color": [mc.to_hex(a.yaxis.label.get_color()) for a in ax], "xlim": [tuple(map(float, a.get_xlim())) for a in ax],
                   "ylim": [tuple(map(float, a.get_ylim())) for a in ax], "title": "".join(a.get_title() for a in ax),
                   "legend": [[t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() else None for a in ax],
                   "lines": [[[list(map(float, l.get_xdata())), list(map(float, l.get_ydata())), str(l.get_label()) if labels[0] is not None else None,
                               mc.to_hex(l.get_color()) if color else None] for l in a.lines] for a in ax]}
            return got, want
        return lambda: ntm.plot1D(x, y, **kw), picture, [lambda: x, lambda: np.array(y).tolist(), lambda: kw]

    @staticmethod
    def texts(p):
        rng = random.Random(p["style"])
        kw = {}
        for k, v in (("xlabel", "across"), ("ylabel", "up"), ("title", p["title"] or "T")):
            if rng.random() < 0.5:
                kw[k] = v
        return kw, rng

    @staticmethod
    def points(ax):
        from matplotlib.collections import PathCollection
        return [sorted([float(a), float(b)] for a, b in c.get_offsets()) for c in ax.collections if isinstance(c, PathCollection)]

    def texts_got(self, ax):
        return {"xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "title": ax.get_title(), "xlim": tuple(map(float, ax.get_xlim())),
                "ylim": tuple(map(float, ax.get_ylim()))}

    def make_poincare(self, ntm, p, rng):
        kw, rng2 = self.texts(p)
        length = 1 + p["T"] + rng.choice([0, 1, 2, 30])
        steps = rng.randrange(1, length + 1)
        near = rng.uniform(0, 1)
        num = lambda: (rng.uniform(0, 1) if rng.random() < 0.6 else near + rng.choice([0, 1e-9, 2e-12])) if p["floats"] else rng.randrange(p["values"])
        series = [[num() for _ in range(length)] for _ in range(max(1, p["series"]))]
        acts = series if p["series"] else series[0]
        if p["source"] == "array":
            acts = np.array(acts)
        for k, v in (("xlim", (-4.0, 9.0)), ("ylim", (-2.5, 3.5))):
            if rng2.random() < 0.4:
                kw[k] = v
        want = dict(kw, points=[sorted([float(a), float(b)] for a, b in zip(s[-steps:], s[-steps:][1:])) for s in series])

        def picture(figs):
            if len(figs) != 1 or len(figs[0].axes) != 1:
                return {"figures": [len(f.axes) for f in figs]}, {"figures": [1]}
            ax = figs[0].axes[0]
            got = dict(self.texts_got(ax), points=self.points(ax))
            if p["series"] > 1 and steps > 1:
                got["colours"], want["colours"] = len({tuple(map(float, c)) for q in ax.collections for c in q.get_facecolors()}), p["series"]
            return got, want
        return lambda: ntm.poincare_plot(acts, steps, **kw), picture, [lambda: np.array(acts).tolist(), lambda: kw]

    def make_bifurcation(self, ntm, p, rng):
        kw, _ = self.texts(p)
        length = p["T"] + rng.choice([0, 1, 2, 30])
        near = rng.uniform(0, 1)
        num = lambda: rng.choice([round(rng.uniform(0, 1), 2), near, near + 1e-9, near + 2e-12]) if p["floats"] else rng.randrange(p["values"])
        steps = rng.randrange(1, length + 2)
        x = [round(rng.uniform(0, 4), 3) for _ in range(1 + p["series"])]
        if rng.random() < 0.5:
            x = [rng.choice(x[:2]) for _ in x]        # several trajectories of one parameter
        trajectories = [[num() for _ in range(length)] for _ in x]
        given = np.array(trajectories) if p["source"] == "array" else trajectories
        want = dict(kw, points=sorted([float(a), float(b)] for a, t in zip(x, trajectories) for b in set(t[-steps:])))

        def picture(figs):
            if len(figs) != 1 or len(figs[0].axes) != 1:
                return {"figures": [len(f.axes) for f in figs]}, {"figures": [1]}
            ax = figs[0].axes[0]
            return dict(self.texts_got(ax), points=sorted(q for c in self.points(ax) for q in c)), want
        return lambda: ntm.bifurcation_plot(x, given, steps, **kw), picture, [lambda: x, lambda: np.array(given).tolist()]

    # ---- networks -----------------------------------------------------------------------------------------------------------
    def net(self, ntm, p, rng, parallel=True):
        net = ntm.Network()
        n = rng.choice([rng.randrange(1, 7), rng.randrange(1, 7), 12])
        names = list(range(n)) if p["labels"] == "int" else rng.sample(range(40), n) if p["labels"] == "shuffled" else ["n%d" % i for i in range(n)]
        for x in names:
            if rng.random() < 0.8:
                net.add_node(x)
        net.add_node(names[0])
        edges = []
        for _ in range(rng.randrange(3 * n)):
            e = (rng.choice(names), rng.choice(names))
            if parallel or e not in edges:
                edges.append(e)
                net.add_edge(*e, **rng.choice([{}, {"weight": 2}]))
        return net, edges

    @staticmethod
    def frozen(net):
        from ..refnet import real_view
        return lambda: real_view(net)

    def make_degrees(self, ntm, p, rng):
        kw, rng2 = self.texts(p)
        net, edges = self.net(ntm, p, rng)
        which = rng2.choice(["in_degree", "out_degree", None])
        deg = {x: 0 for x in net.nodes}
        for i, j in edges:
            if which != "in_degree":
                deg[i] += 1
            if which != "out_degree":
                deg[j] += 1
        if which:
            kw[which] = True
        labels = {"xlabel": kw.pop("xlabel", "Node degree"), "ylabel": kw.pop("ylabel", "Frequency"), "title": kw.get("title", "")}
        if labels["xlabel"] != "Node degree":
            kw["xlabel"] = labels["xlabel"]
        if labels["ylabel"] != "Frequency":
            kw["ylabel_freq"] = labels["ylabel"]
        xs = list(range(1, max(deg.values()) + 1))
        # the title belongs to the axes on top
        want = {"bars": [[float(k), float(sum(1 for d in deg.values() if d == k))] for k in xs], "xlabel": labels["xlabel"], "ylabel": labels["ylabel"],
                "title": labels["title"], "curve": None}
        if rng2.random() < 0.5:
            kw["equation"] = lambda k: 2.0 ** -k
            want["curve"] = [[float(k), 2.0 ** -k] for k in xs]
            if rng2.random() < 0.5:
                # the binomial distribution of a random network (of this one's size, or larger)
                n, q = len(deg) - 1 + rng2.choice([0, 0, 30, 400]), rng2.choice([0.5, 0.25])
                kw["equation"] = lambda k: ntm.ncr(n, k) / 2 ** n if q == 0.5 else float(ntm.ncr(n, k)) * q ** k * (1 - q) ** (n - k) if k <= n else ntm.ncr(n, k)
                want["curve"] = [[float(k), math.comb(n, k) / 2 ** n if q == 0.5 else float(math.comb(n, k)) * q ** k * (1 - q) ** (n - k) if k <= n else 0.0]
                                 for k in xs]
            if rng2.random() < 0.5:
                kw.update(equation_text="p(k)", equation_x=0.25, equation_y=0.5, ylabel_prob="P")
                want["equation"] = [["p(k)", (0.25, 0.5)]]
                want["prob"] = "P"
            else:
                want["prob"] = "Probability"

        def picture(figs):
            axes = 2 if want["curve"] is not None else 1
            if len(figs) != 1 or len(figs[0].axes) != axes:
                return {"figures": [len(f.axes) for f in figs]}, {"figures": [axes]}
            ax = figs[0].axes
            got = {"bars": sorted([float(b.get_x() + b.get_width() / 2), float(b.get_height())] for b in ax[0].patches), "xlabel": ax[0].get_xlabel(),
                   "ylabel": ax[0].get_ylabel(), "title": "".join(a.get_title() for a in ax), "curve": None}
            if axes == 2:
                got.update(curve=[[float(a), float(b)] for l in ax[1].lines for a, b in zip(l.get_xdata(), l.get_ydata())], prob=ax[1].get_ylabel(),
                           equation=[[t.get_text(), tuple(round(float(v), 6) for v in ax[1].transAxes.inverted().transform(
                               t.get_transform().transform(t.get_position())))] for t in ax[1].texts if t.get_text()])
            return got, want
        return lambda: ntm.plot_degree_distribution(net, **kw), picture, [self.frozen(net)]

    def drawn(self, figs, want, nodes, edges, pos, labelled, directed):
        """Nodes, labels and links as they were drawn, in terms of the nodes at their ends."""
        if len(figs) != 1 or len(figs[0].axes) != 1:
            return {"figures": [len(f.axes) for f in figs]}, {"figures": [1]}
        import matplotlib.colors as mc
        from matplotlib.collections import LineCollection, PathCollection
        ax = figs[0].axes[0]
        at = [tuple(round(float(v), 6) for v in q) for c in ax.collections if isinstance(c, PathCollection) for q in c.get_offsets()]
        got = {"nodes": len(at)}
        texts = {t.get_text(): tuple(round(float(v), 6) for v in t.get_position()) for t in ax.texts}
        got["labels"] = sorted(texts)
        if pos is None:
            place = texts if labelled else None
        else:
            place = {str(x): tuple(round(float(v), 6) for v in pos[x]) for x in nodes}
            got["places"] = sorted(at)
            want["places"] = sorted(place.values())
            if "each" in want:
                points = [c for c in ax.collections if isinstance(c, PathCollection)]
                got["each"] = [[tuple(round(float(v), 6) for v in q), mc.to_hex(f)] for c in points for q, f in zip(c.get_offsets(), c.get_facecolors())]
                got["each"].sort()
                want["each"] = sorted([place[str(x)], f] for x, f in zip(nodes, want["each"]))
            if labelled:
                got["label_places"], want["label_places"] = sorted(texts.items()), sorted(place.items())
        links = [tuple(tuple(round(float(v), 6) for v in q) for q in a._posA_posB) for a in ax.patches if getattr(a, "_posA_posB", None)]
        links += [tuple(tuple(round(float(v), 6) for v in q) for q in (s[0], s[-1])) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
        norm = (lambda a, b: (a, b)) if directed else (lambda a, b: tuple(sorted((a, b))))
        got["link_count"], want["link_count"] = len(links), len(edges)
        if place is not None:
            got["links"] = sorted(norm(a, b) for a, b in links)
            want["links"] = sorted(norm(place[str(i)], place[str(j)]) for i, j in edges)
        colors = {mc.to_hex(c) for c in (x for k in ax.collections if isinstance(k, PathCollection) for x in k.get_facecolor())}
        got["colour"] = colors
        sizes = {float(s) for k in ax.collections if isinstance(k, PathCollection) for s in k.get_sizes()}
        got["size"] = sizes
        if pos is None and labelled and sorted(at) != sorted(texts.values()):
            return {"places": sorted(at)}, {"places": sorted(texts.values())}
        return got, want

    def make_network(self, ntm, p, rng):
        net, edges = self.net(ntm, p, rng, parallel=False)
        rng2 = random.Random(p["style"])
        nodes = list(net.nodes)
        layout = rng2.choice([None, "shell", "spring", "dict", "dict", "lattice"])
        if layout == "lattice":
            # a lattice on its own places: neighbours on the lattice are neighbours on the figure
            n_x, n_y = rng2.choice([1, 2, 3, 5]), rng2.choice([1, 2, 3, 4])
            net = ntm.topology.lattice(dim=(1, n_y, n_x))
            nodes, pos = list(range(n_x * n_y)), ntm.vis.lattice_pos(n_x, n_y)
            place = {x: (x // n_y, x % n_y) for x in nodes}
            if pos != place or sorted(net.nodes) != nodes:
                raise Violation("picture", "the places of a lattice of %d x %d: %s" % (n_x, n_y, pos))
            edges = [(i, j) for i in nodes for j in nodes if math.dist(place[i], place[j]) == 1]
            nodes = list(net.nodes)
        else:
            pos = None
        pos = {x: (i * 3 % 7 + 0.5, i * i % 5 - 1.25 + i / 8) for i, x in enumerate(nodes)} if layout == "dict" else pos
        kw = {}
        if layout:
            kw["layout"] = pos or layout
        labelled = rng2.random() < 0.7
        if not labelled:
            kw["with_labels"] = False
        want = {"nodes": len(nodes), "labels": sorted(map(str, nodes)) if labelled else [], "colour": {"#1f78b4"}, "size": {300.0}}
        if rng2.random() < 0.4:
            kw["node_color"], want["colour"] = "#ff8800", {"#ff8800"}
        elif pos and rng2.random() < 0.5:
            # a colour for every node, in the order of the nodes
            each = [rng2.choice(["#102030", "#0000ff", "#ff8800"]) for _ in nodes]
            kw["node_color"], want["colour"], want["each"] = each, set(each), each
        if rng2.random() < 0.4:
            kw["node_size"], want["size"] = 44, {44.0}
        return (lambda: ntm.plot_network(net, **kw)), (lambda figs: self.drawn(figs, dict(want), nodes, edges, pos, labelled, True)), \
            [self.frozen(net), lambda: pos]

    def make_tour(self, ntm, p, rng):
        m = 3 + p["series"]
        points = [(rng.randrange(100) / 100 + i, rng.randrange(100) / 100) for i in range(m)]
        tour = rng.sample(range(m), m)
        matrix = [[0.9 if tour.index(i) == j else 0.1 for j in range(m)] for i in range(m)]
        net = ntm.HopfieldTankTSPNet(points)
        G, pos, _ = net.get_tour_graph(points, matrix)
        edges = [(tour[k], tour[(k + 1) % m]) for k in range(m)]
        want = {"nodes": m, "labels": sorted(map(str, range(m)))}
        return (lambda: net.plot_tour(G, pos)), (lambda figs: self.drawn(figs, dict(want), list(range(m)), edges, dict(enumerate(points)), True, False)), \
            [lambda: sorted(G.nodes), lambda: sorted(map(sorted, G.edges)), lambda: sorted(pos.items())]

    def make_lsystem(self, ntm, p, rng):
        symbols = "AB+-[]"
        text, depth = "", 0
        for _ in range(p["T"] + p["rows"]):
            c = rng.choice(symbols)
            if c == "]" and not depth:
                c = "A"
            depth += {"[": 1, "]": -1}.get(c, 0)
            text += c
        net = ntm.Network(len(text))
        state = ntm.State(activities=dict(enumerate(text)), network=net, compression=p["compression"])
        step = rng.choice([1, 0.5])

        def call():
            t = ntm.Turtle(0.0, 0.0, 0)
            ntm.plot_L_system(state, t, {"A": (t.forward, step), "B": [(t.forward, step), (t.rotate, 30)], "+": (t.rotate, 90), "-": (t.rotate, -45),
                                         "[": t.push, "]": t.pop})
        want = []
        x = y = a = 0.0
        stack = []
        for c in text:
            if c in "AB":
                x2, y2 = x + step * math.sin(math.radians(a)), y + step * math.cos(math.radians(a))
                want.append([x, y, x2, y2])
                x, y = x2, y2
            a += {"B": 30, "+": 90, "-": -45}.get(c, 0)
            if c == "[":
                stack.append((x, y, a))
            elif c == "]":
                x, y, a = stack.pop()

        def picture(figs):
            if not want:
                return {}, {}
            ax = figs[0].axes[0] if len(figs) == 1 and len(figs[0].axes) == 1 else None
            if ax is None:
                return {"figures": [len(f.axes) for f in figs]}, {"figures": [1]}
            got = [[float(l.get_xdata()[0]), float(l.get_ydata()[0]), float(l.get_xdata()[-1]), float(l.get_ydata()[-1])] for l in ax.lines]
            same = len(got) == len(want) and all(math.isclose(u, v, abs_tol=1e-6) for g, w in zip(got, want) for u, v in zip(g, w))
            return {"segments": None if same else got}, {"segments": None if same else want}
        return call, picture, [lambda: sorted(state.activities.items())]


WORLD = C56()
