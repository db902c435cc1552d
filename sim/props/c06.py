from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot

KEYS = [None] * 7 + [["anon", "self"], ["anon", "label"], ["neigh", "time"], ["anon", "input"], ["all", "label"],
        ["past", "label"], ["edges", "anon"]]
HASHABLE = ["int", "int", "float", "str", "bool", "npint", "npfloat", "neg", "npbool", "npstr", "opt", "opt", "tuple"]


class C06(World):
    quick_runs = 7000
    thorough_runs = 300000
    rule = ("One to three memoized evolutions per run, one after the other or nested in one another's rules, sharing the network, "
            "the key object and the rule object (which stands for a different rule in each evolution), some of them aborted by "
            "an injected failure; each compared with the reference interpreter, which does not memoize. Non-trivial: at least "
            "one step was taken; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it"]
    stub = ["user callbacks (generated programs)"]
    assumptions = ["rules depend on nothing but what the key captures; activities are hashable",
                   "a network keeps or lacks a rotation system throughout an evolution with the default key"]

    def generate(self, rng, tier):
        key = rng.choice(KEYS)
        force = {"act": True, "churn": False, "memo": True, "uses": key or ["anon"], "enc": rng.choice(HASHABLE), "large": 0.2}
        if key and "past" in key:
            force["past"] = True
        if rng.random() < 0.4:
            force["rotation"] = True
            if rng.random() < 0.6:
                force["topo"] = False
        p = en.gen_plan(rng, **force)
        if p["topo"] and p["topo"]["rotation"] and not p["net"]["rotation"]:
            p["topo"]["rotation"] = False
        if p["topo"] and p["net"]["rotation"] and not p["topo"]["rotation"] and p["topo"]["style"] == "fresh":
            p["topo"]["rotation"] = True
        if rng.random() < 0.06 and not p["topo"]:
            # crowded neighbourhoods of numbers: very many different keys
            net, m = p["net"], rng.choice([9, 10, 12])
            net.update(n=m, labels=net["labels"] if net["labels"] != "mixed" else "int", order=list(range(m)), edges=[])
            for j in range(m):
                net["edges"] += [[i, j, rng.randrange(7)] for i in rng.sample(range(m), rng.choice([7, 8, 9]))]
            q = en.gen_plan(rng, **dict(force, enc="int", topo=False, rotation=False, drive="T", T=rng.choice([8, 12]), pert=False, past=False,
                                        large=0.0, empty=0.0, uses=["anon"], max_nodes=1))
            q["net"], q["mod"], q["act"]["mod"] = net, 11, 11
            net["rotation"] = 0
            q["init"] = {"vals": [rng.randrange(11) for _ in range(m)], "form": "dict"}
            p, key = q, None
        n = rng.choice([1, 1, 2, 3])
        faults = [None] * n
        if n > 1 and rng.random() < 0.5:
            faults[rng.randrange(n - 1)] = {"where": rng.choice(["act", "act", "pert" if p["pert"] else "act"]),
                                            "at": rng.randrange(8), "exc": rng.randrange(9)}
        return {"p": p, "key": key, "n": n, "faults": faults,
                "nest": rng.randrange(6) if n > 1 and rng.random() < 0.5 else None}

    def execute(self, plan, sim):
        sim.budget = 20000
        ntm = boot.load()
        p, uses = plan["p"], plan["key"] or ["anon"]
        if p["act"]["uses"] != uses or p["churn"] or (not p["memo"] and p["net"]["n"]) or len(plan["faults"]) < plan["n"]:
            raise Invalid("memo")
        if p["topo"] and p["topo"]["rotation"] and not p["net"]["rotation"]:
            raise Invalid("memo rotation")
        stack = []
        sequence = []

        class Key(ntm.MemoizationKey):
            def to_key(self, ctx):
                prog = stack[-1]
                return repr(en.node_view(ctx, uses, prog.is_ordered(ctx), prog.t_offset))
        key = Key() if plan["key"] else None
        rule = lambda ctx: stack[-1].act(ctx)
        shared = {}

        def variant(i):
            q = dict(p)
            q["act"] = dict(p["act"], seed=p["act"]["seed"] + i)
            return q

        def one(i, nested):
            q = variant(i)
            fault = en.Fault(plan["faults"][i], sim) if plan["faults"][i] else None
            count = [0]

            def hook(kind, t, lab):
                if fault is not None:
                    fault.hook(kind, t, lab)
                if kind == "act":
                    count[0] += 1
                    if plan["nest"] is not None and not nested and i == 0 and count[0] == plan["nest"] + 1:
                        for k in range(1, plan["n"]):
                            one(k, True)
            run = en.RealRun(q, sim, hook=hook, memo_key=key, args=dict(shared))
            shared.setdefault("network", run.network)
            shared.setdefault("init", run.init)
            run.kw["activity_rule"] = rule
            stack.append(run.prog)
            try:
                if fault is not None:
                    if en.run_with_fault(run, fault, sim):
                        sequence.append("failed")
                        return
                else:
                    en.guarded("crash", run.run)
            finally:
                stack.pop()
            sequence.append("nested" if nested else "alone")
            ref = en.RefRun(q)
            en.compare_trajectory(run.trajectory, ref, q, sim, what="evolution %d" % i)
            en.compare_calls(run.prog, ref.prog, ("topo", "pert", "input"), what="evolution %d" % i)
            self.check_calls(run, uses, sim, i)

        one(0, False)
        if plan["nest"] is None or len(sequence) < plan["n"]:
            for i in range(1, plan["n"]):
                one(i, False)
        for s in sequence:
            sim.probe("evolution_" + s)
        sim.probe("ordered_key" if p["net"]["rotation"] and not plan["key"] else
                  "custom_key" if plan["key"] else "unordered_key")
        sim.log(sequence)

    def check_calls(self, run, uses, sim, i):
        """At most one invocation of the rule per distinct key."""
        seen = {}
        for k, (kind, t, lab, c) in enumerate(run.prog.calls):
            if kind != "act":
                continue
            view = {}
            for part in run.prog.views[k]:
                view.setdefault(part[0], []).append(part[1:])
            key = []
            for u in uses:
                if u == "anon":
                    acts = [a for _, a in view["neigh"][0][1]]
                    ordered = run.plan["net"]["rotation"] or (run.plan["topo"] or {}).get("rotation")
                    key.append(acts if ordered else sorted(acts, key=en.nkey))
                else:
                    key.append(view.get({"time": "t"}.get(u, u)))
            key = repr(key)
            if key in seen:
                raise Violation("called-again", "evolution %d: the rule was invoked twice for the key %s: at %s and %s"
                                % (i, key[:300], seen[key], (t, lab)))
            seen[key] = (t, lab)
        sim.stats["memo_calls"] += len(seen)


WORLD = C06()
