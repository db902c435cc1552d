import msgpack

from ..core import Invalid, Violation
from ..world import World
from .. import engine as en, boot, models, seams
from ..refnet import real_view


class Died(Exception):
    pass


class C10(World):
    quick_runs = 6000
    thorough_runs = 250000
    rule = ("A generated automaton is run once by the reference. The real one is (a) stopped at recorded states and resumed from them, or (b) "
            "logs every state it reaches in compressed form from within its input source, dies while writing a record (torn at an "
            "arbitrary byte), and is recovered from the last complete record, up to three times in a row. All segments together "
            "must be the reference history. Non-trivial: at least one resumption; distinct by plan.")
    state_measure = "distinct (activities, network) pairs reached, CRC-32 of their canonical form"
    real = ["netomaton.evolve and everything below it", "Network.compress/decompress", "msgpack"]
    stub = ["user callbacks (generated programs)", "the log file (a list of byte strings)"]
    assumptions = ["rules know the absolute time only through the offset they are resumed with",
                   "recorded states have an activity for exactly the nodes of their network (a topology rule that removes nodes after "
                   "they were updated leaves states without)",
                   "a network's rotation system is restored by the caller after decompression (known finding K2)"]

    def generate(self, rng, tier):
        if rng.random() < 0.12:
            spec = models.gen(rng, models.RESUMABLE)
            spec["T"] = rng.randrange(2, 9)
            return {"spec": spec, "cuts": [[rng.randrange(9), rng.choice(["same", "fresh", "packed"])] for _ in range(rng.choice([1, 2, 3]))]}
        wal = rng.random() < 0.5
        force = {"drive": "fn" if wal else rng.choice(["T", "T", "list", "rows", "fn"]), "T": rng.choice([3, 4, 5, 6, 8, 12]),
                 "persist_activities": True, "persist_network": True}
        if force["drive"] == "rows":
            force["churn"] = False
        p = en.gen_plan(rng, **force)
        if p["drive"]["kind"] == "fn" and rng.random() < 0.8:
            p["drive"]["quit"] = 0
        if p["topo"] and p["order"] != "TF" and p["act"]:
            p["topo"]["lose_nodes"] = False
        p["compression"] = rng.random() < 0.5
        return {"p": p, "wal": wal, "cuts": [[rng.randrange(12), rng.randrange(1 << 16), rng.choice(["torn", "torn", "clean", "lost"])]
                                            for _ in range(rng.choice([1, 1, 2, 3]))]}

    def execute(self, plan, sim):
        sim.budget = 60000
        if "spec" in plan:
            return self.model(plan, sim)
        p = plan["p"]
        if not (p["persist_activities"] and p["persist_network"]):
            raise Invalid("recording is needed")
        if p["topo"] and p["topo"]["lose_nodes"] and p["order"] != "TF" and p["act"]:
            raise Invalid("a state may have activities of nodes the topology rule has just removed")
        ref = en.RefRun(p)
        if plan["wal"]:
            if p["drive"]["kind"] != "fn":
                raise Invalid("log")
            self.crashes(plan, ref, sim)
        else:
            self.cuts(plan, ref, sim)
        en.count_net_faults(ref, sim)

    def model(self, plan, sim):
        """A model whose state is all in the activities goes on from any recorded state: with the same rule, with a newly built
        one, or after a round trip of the state through its compressed form."""
        spec = plan["spec"]
        want = models.alone(spec)
        m = models.build(spec["model"], spec["seed"])
        inst = m.make()
        traj = m.evolve(inst, spec["T"], compression=spec["compression"])
        base = 0
        for at, how in plan["cuts"]:
            k = base + at % len(traj)
            st = traj[k - base]
            net, acts = st.network, st.activities
            if how == "fresh":
                m = models.build(spec["model"], spec["seed"])
                inst = m.make()
            elif how == "packed":
                net = boot.load().Network.decompress(net.compress())
                acts = msgpack.unpackb(msgpack.packb(acts), strict_map_key=False)
            if net.rotation_system is None and inst["network"].rotation_system is not None:
                net.rotation_system = inst["network"].rotation_system
            traj = en.guarded("crash", m.evolve, inst, spec["T"] - k, network=net, initial_conditions=acts,
                              compression=spec["compression"])
            got = models.data(traj)
            for g in got:
                g[1][2] = None          # the rotation system is known not to be recorded
            exp = [(a, n[:2] + [None]) for a, n in want[k:]]
            if got != exp:
                diff = [(t, g, w) for t, (g, w) in enumerate(zip(got, exp)) if g != w][:1]
                raise Violation("model-trajectory", "%s resumed from t=%d (%s): %d states, expected %d; %s"
                                % (spec["model"], k, how, len(got), len(exp), en.short(diff)))
            base = k
            sim.fault("stop_and_resume")
            sim.stats["steps"] += len(got)
        sim.probe("model_" + spec["model"])
        sim.state(want)

    def resume_args(self, p, k, network, activities, window, ref):
        A = ref.states[k][1]
        if A.rotation is not None and network.rotation_system is None:
            network.rotation_system = {n: list(v) for n, v in A.rotation.items()}
        args = {"network": network, "init": activities, "past": window}
        d = p["drive"]
        prog = en.Program(p)
        if d["kind"] == "T":
            args["T"] = d["T"] - k
        elif d["kind"] != "fn":
            args["inputs"] = list(prog.inputs())[k:]
        return args

    def cuts(self, plan, ref, sim):
        p = plan["p"]
        run = en.RealRun(p, sim)
        traj = en.guarded("crash", run.run)
        en.compare_trajectory(traj, ref, p, sim)
        base, last = 0, len(traj) - 1
        for cut, _, _ in plan["cuts"]:
            k = base + (cut % (last - base + 1) if last >= base else 0)
            st = traj[k - base]
            r2 = en.RealRun(p, sim, t_offset=k, args=self.resume_args(p, k, st.network, st.activities, ref.windows[k], ref))
            traj = en.guarded("crash", r2.run)
            en.compare_trajectory(traj, ref.states[k:], p, sim, what="resumed from t=%d" % k)
            base = k
            sim.fault("stop_and_resume")
            sim.stats["steps"] += 1

    def crashes(self, plan, ref, sim):
        p = plan["p"]
        log = []          # the durable log: (network record, activities record)
        offset, window = 0, None
        args = None
        pending = list(plan["cuts"])
        while True:
            cut = pending.pop(0) if pending else None
            run = en.RealRun(p, sim, t_offset=offset, args=args)
            inner = run.prog.source
            seen = [0]

            def source(t, acts, net):
                at = offset + t - 1          # the state handed over is that of timestep t-1
                rec = [net.compress(), msgpack.packb(acts)]
                if cut is not None and seen[0] == cut[0]:
                    how, pos = cut[2], cut[1]
                    if at == len(log):
                        if how == "torn":
                            log.append([rec[0][:pos % len(rec[0])], b""])
                        elif how == "clean":
                            log.append(rec)
                    sim.fault("crash_" + how)
                    raise Died()
                seen[0] += 1
                if at == len(log):
                    log.append(rec)
                elif at < len(log):
                    log[at] = rec
                return inner(t, acts, net)
            run.kw["input"] = source
            try:
                run.run()
            except Died:
                pass
            except (Violation, Invalid):
                raise
            except Exception as e:
                raise Violation("crash", "unexpected %s: %s" % (type(e).__name__, e))
            else:
                en.compare_trajectory(run.trajectory, ref.states[offset:], p, sim, what="resumed from t=%d" % offset)
                return
            # recovery: drop the incomplete tail, load the last complete record
            ntm = boot.load()
            while log:
                try:
                    net = ntm.Network.decompress(log[-1][0])
                except Exception:
                    log.pop()
                    sim.probe("torn_record_dropped")
                    continue
                k = len(log) - 1
                if real_view(net) != ref.states[k][1].view() or not log[-1][1]:
                    raise Violation("torn-record-accepted", "record %d, %d bytes, was read as a network: %s"
                                    % (k, len(log[-1][0]), en.short(real_view(net))))
                break
            if not log:
                offset, args = 0, None
                continue
            k = len(log) - 1
            acts = msgpack.unpackb(log[-1][1], strict_map_key=False)
            window = None
            if ref.windows[k] is not None:
                past = en.Program(p).past_conditions()
                seq = [en.as_dict(x) for x in past] + [msgpack.unpackb(r[1], strict_map_key=False) for r in log[:k]]
                window = seq[-len(past):]
            offset = k
            args = self.resume_args(p, k, net, acts, window, ref)
            sim.stats["steps"] += 1


WORLD = C10()
