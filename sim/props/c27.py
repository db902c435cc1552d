import builtins
import fractions
import io
import os
import random
import re
import shutil
import tempfile

from ..core import InjectedInterrupt, Invalid, Violation
from ..world import World
from .. import engine as en, boot


class DiskError(OSError):
    """The simulated disk failed."""


# ---- a JavaScript literal ------------------------------------------------------------------------------------------------
TOKEN = re.compile(r'\s*(?:([\[\]{},:()])|("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\')|(-?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)|([A-Za-z_$][\w$]*))')


def js(text, pos):
    """Parses the JavaScript literal at text[pos:]; raises ValueError if it is none."""
    def token(p):
        m = TOKEN.match(text, p)
        if not m:
            raise ValueError("no literal at %r" % text[p:p + 30])
        return m

    def value(p):
        m = token(p)
        punct, string, number, name = m.groups()
        if string is not None:
            import ast
            try:
                return ast.literal_eval(string), m.end()
            except SyntaxError:
                raise ValueError("no string: %s" % string)
        if number is not None:
            return float(number) if any(c in number for c in ".eE") else int(number), m.end()
        if name is not None:
            if name in ("true", "false", "null"):
                return {"true": True, "false": False, "null": None}[name], m.end()
            raise ValueError("unquoted %s" % name)
        if punct == "[":
            out, p = [], m.end()
            while True:
                m = token(p)
                if m.group(1) == "]":
                    return out, m.end()
                v, p = value(p)
                out.append(v)
                m = token(p)
                if m.group(1) == ",":
                    p = m.end()
                elif m.group(1) != "]":
                    raise ValueError("expected , at %r" % text[p:p + 30])
        if punct == "{":
            out, p = {}, m.end()
            while True:
                m = token(p)
                if m.group(1) == "}":
                    return out, m.end()
                key = m.group(4) if m.group(4) is not None else m.group(2)[1:-1] if m.group(2) else m.group(3)
                m = token(m.end())
                if key is None or m.group(1) != ":":
                    raise ValueError("expected a key at %r" % text[p:p + 30])
                out[key], p = value(m.end())
                m = token(p)
                if m.group(1) == ",":
                    p = m.end()
                elif m.group(1) != "}":
                    raise ValueError("expected , at %r" % text[p:p + 30])
        raise ValueError("no literal at %r" % text[m.start():m.start() + 30])
    return value(pos)


# ---- the disk --------------------------------------------------------------------------------------------------------------
class SimFile:
    """A real file in the scratch directory whose operations fail when the disk says so."""

    def __init__(self, disk, real):
        self._disk, self._real, self._closed = disk, real, False

    def write(self, data):
        f = self._disk.hit("write")
        if f:
            self._real.write(data[:int(len(data) * self._disk.part)])      # a torn write
            raise f
        return self._real.write(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        f = self._disk.hit("flush")
        if f:
            raise f
        self._real.flush()

    def close(self):
        if self._closed:
            return
        self._closed = True
        self._real.close()
        self._disk.open_files -= 1
        f = self._disk.hit("close")
        if f:
            raise f

    @property
    def closed(self):
        return self._closed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self._real, name)


class Disk:
    def __init__(self, root, fault, part):
        self.root, self.fault, self.part = os.path.realpath(root), fault, part
        self.open_files, self.fired = 0, None
        self.real_open = io.open

    def hit(self, where):
        f = self.fault
        if f is None or self.fired is not None or f[0] != where:
            return None
        self.fired = [DiskError(28, "no space left on device (simulated)"), DiskError(5, "input/output error (simulated)"),
                      InjectedInterrupt("interrupted")][f[1]]
        return self.fired

    def open(self, file, mode="r", *a, **k):
        inside = isinstance(file, (str, os.PathLike)) and os.path.realpath(file).startswith(self.root + os.sep)
        if not inside or not set(mode) & set("wax+"):
            return self.real_open(file, mode, *a, **k)
        f = self.hit("open")
        if f:
            raise f
        real = self.real_open(file, mode, *a, **k)
        self.open_files += 1
        return SimFile(self, real)

    def __enter__(self):
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real_open


class C27(World):
    quick_runs = 15000
    thorough_runs = 250000
    rule = ("Sequences of exports of random networks (netomaton networks, NetworkX graphs, Wolfram configurations; numeric and other labels, "
            "self-loops, parallel links, nothing at all) to new and existing files, by relative and absolute names, on a simulated disk that "
            "fails or is interrupted when the file is opened, written (torn), flushed or closed; each failed export is repeated. "
            "Non-trivial: at least one export; distinct by plan.")
    time_unit = "exports"
    state_measure = "distinct (nodes, links) exported"
    real = ["show_network", "get_html", "configuration_to_nx", "files in a scratch directory"]
    stub = ["disk failures", "the browser"]
    assumptions = ["labels are told apart by what they look like in print; the page is taken to list what its vis.DataSet literals list"]

    LABELS = {"int": [0, 1, 2, 5, -3, 10], "float": [0.5, 1.5, 2.25, -1.0, 100.0], "str": ["a", "b c", "d'e", 'q"q', "x\\y", "é", "0x1", "a\nb", "</b>", "tab\t", "#"],
              "markup": ["</script>", "<!-- <script>", "&lt;", "</SCRIPT >", "-->", "<b>", "\u2028", "DataSet("], "nonfinite": [float("inf"), -float("inf"), 1.5, "inf2"],
              "fraction": [fractions.Fraction(1, 2), fractions.Fraction(-3, 7), fractions.Fraction(5, 2), 9],
              "tuple": [(0, 1), (1, 0), (1, 1), (2, 3)], "mixed": [0, "a", (1, 2), 2.5, "Z"], "bool": [True, False, "x", 7], "large": list(range(90, 140))}

    def generate(self, rng, tier):
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            labels = rng.choice(sorted(self.LABELS))
            m = len(self.LABELS[labels])
            n = rng.randrange(0, m + 1)
            kind = rng.choice(["network", "network", "nx", "config", "wolfram"])
            out.append({"kind": kind, "labels": labels, "nodes": list(range(n)),
                        "edges": [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.choice([0, 1, 2, 5, 12, 2 * n]))] if n else [],
                        "name": rng.choice(["out.html", "out.html", "net work.html", "sub/page.html", "é.html", "missing/x.html", "sub", None]),
                        "absolute": rng.random() < 0.3, "notebook": rng.random() < 0.25,
                        "fault": [rng.choice(["open", "write", "write", "flush", "close"]), rng.randrange(3)] if rng.random() < 0.5 else None,
                        "link": rng.random() < 0.1, "part": rng.choice([0.0, 0.3, 0.999]), "old": rng.choice([None, "x" * 20000, "old"])})
        return {"exports": out}

    def build(self, ntm, e):
        import networkx as nx
        from netomaton.vis import configuration_to_nx
        lab = self.LABELS[e["labels"]]
        if any(i >= len(lab) for i in e["nodes"]) or any(i not in e["nodes"] for ed in e["edges"] for i in ed):
            raise Invalid("labels")
        nodes = [lab[i] for i in e["nodes"]]
        edges = [(lab[i], lab[j]) for i, j in e["edges"]]
        if e["kind"] in ("network", "nx"):
            g = ntm.Network() if e["kind"] == "network" else nx.MultiDiGraph()
            for x in nodes:
                g.add_node(x)
            for i, j in edges:
                g.add_edge(i, j)
            return g, nodes, edges
        config = [(i, j) for i, j in edges] + [(x,) for x in nodes[:2]]
        if len(nodes) > 2:
            config.append(tuple(nodes[:3]))
            edges = edges + [(nodes[0], nodes[1]), (nodes[1], nodes[2])]
        nodes = sorted({x for r in config for x in r}, key=repr)
        if e["kind"] == "config" or not config or any(len(r) != 2 for r in config):
            return configuration_to_nx(config), nodes, edges
        m = ntm.WolframPhysicsModel([list(r) for r in config], {"in": [("x", "y"), ("y", "z")], "out": [("x", "z")]})
        return m.network, nodes, edges

    def execute(self, plan, sim):
        import webbrowser
        ntm = boot.load()
        root = tempfile.mkdtemp(prefix="verif-c27-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        cwd = os.getcwd()
        browser = webbrowser.open
        try:
            os.chdir(root)
            os.mkdir("sub")
            for i, e in enumerate(plan["exports"]):
                self.export(ntm, webbrowser, root, e, "export %d" % i, sim)
        finally:
            webbrowser.open = browser
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)

    def export(self, ntm, webbrowser, root, e, what, sim):
        from netomaton.vis import show_network
        g, nodes, edges = self.build(ntm, e)
        name = e["name"]
        path = name if name is not None else "out.html"
        doomed = path in ("missing/x.html", "sub")
        full = os.path.join(root, path)
        if not doomed and (os.path.islink(full) or e["link"] and os.path.exists(full)):
            os.remove(full)
        if e["old"] is not None and not doomed:
            if e["link"]:
                # the page's name is a symbolic link to another file
                os.symlink(os.path.join(root, "target-of-" + os.path.basename(full)), full)
                sim.probe("through_a_link")
            with open(full, "w") as f:
                f.write(e["old"])
        others = self.listing(root, path)
        for attempt in (0, 1):
            disk = Disk(root, e["fault"] if attempt == 0 else None, e["part"])
            seen = []

            def browse(url, *a, **k):
                text = None
                if os.path.isfile(full):
                    with disk.real_open(full, encoding="utf-8") as f:
                        text = f.read()
                seen.append((url, text, disk.open_files))
                return True
            webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = browse
            kw = {} if name is None else {"name": full if e["absolute"] else name}
            if e["notebook"]:
                kw["is_notebook"] = True
            raised = None
            with disk:
                try:
                    show_network(g, **kw)
                except (Exception, InjectedInterrupt) as x:
                    raised = x
            sim.stats["steps"] += 1
            if disk.open_files:
                raise Violation("left-open", "%s: %d files were left open (fault %s)" % (what, disk.open_files, e["fault"]))
            if disk.fired is not None or doomed:
                sim.fault("disk_" + (e["fault"][0] + ("_interrupted" if e["fault"][1] == 2 else "") if disk.fired is not None else "no_such_place"))
                if disk.fired is not None and raised is not disk.fired or raised is None:
                    raise Violation("swallowed", "%s: the disk failed (%s), the export %s" % (what, e["fault"] if disk.fired else path,
                                    "succeeded" if raised is None else "raised %r" % raised))
                if seen:
                    raise Violation("browser", "%s: the export failed, yet the browser was opened on %s" % (what, seen[0][0]))
                if doomed:
                    return
                continue
            if raised is not None:
                raise Violation("crash", "%s: unexpected %s: %s" % (what, type(raised).__name__, raised))
            break
        if self.listing(root, path) != others:
            raise Violation("other-file", "%s: wrote to %s, the files are now %s" % (what, path, self.listing(root, path)))
        with open(full, encoding="utf-8") as f:
            text = f.read()
        self.page(text, nodes, edges, what)
        if e["notebook"]:
            if seen:
                raise Violation("browser", "%s: the browser was opened in a notebook" % what)
        else:
            if len(seen) != 1:
                raise Violation("browser", "%s: the browser was opened %d times" % (what, len(seen)))
            url, then, opened = seen[0]
            if then != text or opened:
                raise Violation("browser", "%s: the browser was opened before the page was complete" % what)
            from urllib.parse import unquote
            if not url.startswith("file:") or os.path.realpath(full) not in (url[7:], unquote(url)[7:]):
                raise Violation("browser", "%s: the browser was opened on %s, the page is at %s" % (what, url, full))
        sim.state((sorted(map(str, nodes)), sorted(map(str, edges))))
        sim.log(what, len(nodes), len(edges))

    @staticmethod
    def listing(root, path):
        out = []
        for d, _, files in os.walk(root):
            for f in files:
                p = os.path.relpath(os.path.join(d, f), root)
                if p != path and not p.startswith("target-of-"):
                    out.append((p, os.lstat(os.path.join(d, f)).st_size))
        return sorted(out)

    def page(self, text, nodes, edges, what):
        # a script ends at the first closing tag, even if that's within a string (or never, after an opening tag in a comment)
        script = "".join(re.findall(r"<script\b[^>]*>(.*?)</script[\s/>]", text, re.S | re.I))
        if re.search(r"<!--((?!-->).)*<script[\s/>]", script, re.S | re.I):
            raise Violation("page", "%s: the script of the page does not end" % what)
        first = re.search(r"DataSet\(", script)
        if not first or not text.strip().startswith("<html") or not text.strip().endswith("</html>"):
            raise Violation("page", "%s: not a complete page: %s ... %s" % (what, text[:60], text[-60:]))
        try:
            ns, end = js(script, first.end())
            second = re.compile(r"DataSet\(").search(script, end)
            if not second:
                raise ValueError("no links")
            es = js(script, second.end())[0]
            if any("from" in x for x in ns) or any("id" in x for x in es):
                ns, es = es, ns
        except ValueError as x:
            raise Violation("page", "%s: the page cannot be read: %s" % (what, x))
        if sorted(str(n["id"]) for n in ns) != sorted(map(str, nodes)):
            raise Violation("nodes", "%s: the page lists the nodes %s, the network has %s" % (what, [n["id"] for n in ns], nodes))
        if any(str(n["label"]) != str(n["id"]) for n in ns):
            raise Violation("nodes", "%s: the page labels the nodes %s" % (what, [(n["id"], n["label"]) for n in ns]))
        got = sorted((str(d["from"]), str(d["to"])) for d in es)
        if got != sorted((str(i), str(j)) for i, j in edges):
            raise Violation("edges", "%s: the page lists the links %s, the network has %s" % (what, got, edges))


WORLD = C27()
