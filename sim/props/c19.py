import copy
import itertools

from ..core import Invalid, NoProgress, Violation
from ..world import World
from .. import engine as en, boot
from ..refnet import nkey


class C19(World):
    quick_runs = 15000
    thorough_runs = 200000
    rule = ("Random substitution systems (key length 1 to 6, growing, shrinking and erasing rules, constants), each object evolved one to four "
            "times for different lengths, some evolutions cut short by a failing or interrupted rule (at any call or executed "
            "line), some resumed from a recorded state; every state is compared with the string rewritten in parallel, as are the history's strings and padded rows. Non-trivial: at least one step; distinct by plan.")
    state_measure = "distinct strings reached"
    real = ["SubstitutionSystem", "netomaton.evolve"]
    assumptions = ["rules cover every window that occurs; symbols are single characters or digits; constants only with keys of length 1"]

    def generate(self, rng, tier):
        k = rng.choice([1, 1, 2, 2, 3]) if rng.random() < 0.93 else rng.choice([4, 5, 6])
        digits = rng.random() < 0.3
        alphabet = rng.choice((["012", "01"] if digits else ["AB", "ABC", "01", "xyF"]) if k < 4 else ["01"] if digits else ["AB", "01"])
        keys = ["".join(t) for t in itertools.product(alphabet, repeat=k)]
        mean = rng.choice([0.9, 1.0, 1.3, 1.8])
        rules = []
        for key in keys:
            n = min(4, max(0, int(rng.gauss(mean, 0.8) + 0.5)))
            rules.append([key, "".join(rng.choice(alphabet) for _ in range(n))])
        rng.shuffle(rules)
        constants = []
        if k == 1 and rng.random() < 0.3 and len(rules) > 1:
            if rng.random() < 0.5:
                constants = [rules.pop()[0]]
            elif not digits:
                constants = ["+", "["]
        start = alphabet + ("".join(constants) if constants and constants[0] not in alphabet else "")
        axiom = "".join(rng.choice(start) for _ in range(rng.choice([1, 2, 3, 5, 8] if k < 4 else [k, k + 2, 9, 14])))
        if digits:
            rules = [r for r in rules]
        runs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            f = None
            if rng.random() < 0.4:
                f = {"where": rng.choice(["act", "act", "line", "input"]), "at": rng.choice([rng.randrange(4), rng.randrange(40), rng.randrange(300)]),
                     "exc": rng.randrange(9)}
            # from the axiom, or resumed from a state recorded earlier
            frm = None if rng.random() < 0.65 else [rng.randrange(8), rng.randrange(8)]
            runs.append([rng.choice([1, 2, 2, 3, 4, 6]), f, frm])
        return {"k": k, "rules": rules, "constants": constants, "axiom": axiom, "digits": digits, "runs": runs,
                "compression": rng.random() < 0.2, "as_list": rng.random() < 0.3}

    def execute(self, plan, sim):
        ntm = boot.load()
        sim.budget = 60000
        k, rules, constants = plan["k"], dict(map(tuple, plan["rules"])), list(plan["constants"])
        full = dict(rules)
        full.update({c: c for c in constants})
        if not plan["axiom"] or not rules or any(len(x) != k for x in rules) or (constants and k != 1) \
                or plan["digits"] and not all(c.isdigit() for c in plan["axiom"] + "".join(full.values())):
            raise Invalid("rules")
        axiom = [int(c) for c in plan["axiom"]] if plan["digits"] else list(plan["axiom"]) if plan["as_list"] else plan["axiom"]
        given = copy.deepcopy(rules), copy.deepcopy(constants)
        s = en.guarded("crash", ntm.SubstitutionSystem, axiom, rules, constants or None)
        recorded = []
        for i, (T, f, frm) in enumerate(plan["runs"]):
            start = None
            if frm and recorded:
                traj, strings = recorded[frm[0] % len(recorded)]
                start = traj[frm[1] % len(traj)]
                want = [strings[frm[1] % len(traj)]]
                sim.probe("resumed")
            else:
                want = [plan["axiom"]]
            while len(want) < T:
                x = want[-1]
                w = [x[j:j + k] for j in range(len(x) - k + 1)]
                if any(y not in full for y in w):
                    raise Invalid("windows")
                want.append("".join(full[y] for y in w))
                if len(want[-1]) > 60:
                    break
            T = len(want)
            fault = en.Fault(f, sim) if f else None

            def rule(ctx):
                sim.spend()
                if fault:
                    fault.hook("act", ctx.timestep, ctx.node_label)
                return s.activity_rule(ctx)

            def source(t, a, n):
                if fault:
                    fault.hook("input", t, None)
                return "__go__" if False else (t if t < T else None)
            run = Run(lambda: ntm.evolve(start.network if start else s.network,
                                         initial_conditions=start.activities if start else s.initial_conditions,
                                         activity_rule=rule, input=source, compression=plan["compression"]))
            if fault:
                if en.run_with_fault(run, fault, sim):
                    sim.probe("aborted")
                    continue
            else:
                en.guarded("crash", run.run)
            self.judge(run.trajectory, want, plan, "evolution %d" % i, s, sim)
            recorded.append((run.trajectory, want))
            if i:
                sim.probe("evolved_again")
        if (rules, constants) != given:
            raise Violation("rules-altered", "the caller's rules became %s (constants %s), they were %s (%s)" % (rules, constants, *given))

    def judge(self, traj, want, plan, what, s, sim):
        k = plan["k"]
        if len(traj) != len(want):
            raise Violation("length", "%s: %d states, expected %d" % (what, len(traj), len(want)))
        seen = set()
        for t, (st, w) in enumerate(zip(traj, want)):
            acts, net = st.activities, st.network
            labels = sorted(acts)
            got = "".join(str(acts[x]) for x in labels)
            if got != w:
                raise Violation("string", "%s t=%d: %r, expected %r" % (what, t, got, w))
            types = {type(acts[x]) for x in labels} - {int if plan["digits"] else str}
            if types:
                raise Violation("string", "%s t=%d: symbols of type %s" % (what, t, types))
            again = seen & set(labels)
            if again:
                raise Violation("label-reused", "%s t=%d: the labels %s were those of other nodes before" % (what, t, sorted(again)[:5]))
            seen |= set(labels)
            if sorted(net.nodes) != labels:
                raise Violation("network", "%s t=%d: the nodes are %s, activities are of %s" % (what, t, sorted(net.nodes), labels))
            for p, x in enumerate(labels):
                around = sorted(net.in_edges(x))
                if around != labels[p:p + k] or any(len(e) != 1 for e in net.in_edges(x).values()):
                    raise Violation("neighbourhood", "%s t=%d: node %r is connected to %s, its window is %s"
                                    % (what, t, x, around, labels[p:p + k]))
            sim.state(w)
            sim.log(what, t, w)
        sim.stats["steps"] += len(traj) - 1
        if not plan["digits"]:
            strings = en.guarded("to-string", s.to_string, traj)
            if strings != want:
                raise Violation("to-string", "%s: to_string gives %s, expected %s" % (what, strings, want))
        if plan["digits"] or all(want):
            m = max(len(w) for w in want)
            padded = en.guarded("pad", s.pad, traj)
            rows = ["".join(str(v if isinstance(v, str) else int(v)) for v in row) for row in padded.tolist()]
            if rows != [w + "0" * (m - len(w)) for w in want]:
                raise Violation("pad", "%s: padded, %s became %s" % (what, want, rows))


class Run:
    def __init__(self, fn):
        self.fn, self.trajectory = fn, None

    def run(self):
        self.trajectory = self.fn()
        return self.trajectory


WORLD = C19()
