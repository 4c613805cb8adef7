"""C04: interrupted pipelines can simply be rerun."""
from ..core import Property, Violation
from .. import gen as G, tools as T
from ..sim import describe_log

IN = ("true.trec", "pred.trec")
STEPS = (("convert", ["-i", "true.trec", "-o", "true.jsonl", "-r", "true"], "true.jsonl"),
         ("convert", ["-i", "pred.trec", "-o", "pred.jsonl", "-r", "pred"], "pred.jsonl"),
         ("evaluate", ["-t", "true.jsonl", "-p", "pred.jsonl", "-o", "out.csv"], "out.csv"))


class P(Property):
    id = "C04"
    technique = "deterministic simulation with crash, torn-write and I/O fault injection; refinement against an uninterrupted run"
    quick, thorough = 1800, 40000
    uses_driver = False
    components = {"real": "elinor-convert and elinor-evaluate binaries", "simulated": "threads, clock, entropy, file system calls, crashes at system calls, inside writes and at any scheduling step",
                  "stub": "none"}
    rule = "a scenario is a pipeline of 3 steps whose outputs exist beforehand in some stale form, 1 to 5 interrupted attempts at its steps (crash, torn write, kill, failing operation), then one clean rerun; non-trivial: at least one interruption fired"
    assumptions = ["a crash of the process keeps what completed writes handed to the kernel (power loss is not simulated: the tools never sync)"]

    def gen(self, rng, ctx, i, tier):
        tr, pr = G.rels(rng, size=rng.choice(["small", "mid", "large"])) if rng.random() < 0.994 else G.vast(rng)
        scn = {"true.trec": T.pack(G.trec_text(rng, tr, "true")), "pred.trec": T.pack(G.trec_text(rng, pr, "pred")),
               "metrics": rng.choice([[], ["-m"] + G.metrics(rng)]), "tab": rng.random() < 0.3, "stale": {}, "tries": [], "final": G.quiet(rng), "clean": G.quiet(rng)}
        for _, _, o in STEPS:
            k = rng.choice(["none", "none", "junk", "long", "empty", "old"])
            if k != "none":
                scn["stale"][o] = k
        runs = self.clean_runs(scn, ctx)[0]
        if any(r.rc for r in runs):
            return scn
        for _ in range(rng.randint(1, 5)):
            s = rng.choice([0, 1, 2, 2])
            r = runs[s]
            c = G.schedule(rng) if rng.random() < 0.4 else G.quiet(rng)
            g = G.op_groups(r)
            kind = rng.choice(["crash", "crash", "torn", "kill", "hard", "cap", "alloc"])
            if kind in ("crash", "torn"):
                keys = [k for k in sorted(g) if k[1] != "stderr" and (k[0] == "write" if kind == "torn" else k[0] in ("open", "read", "write", "close"))]
                op, t = rng.choice(keys)
                act = "torncrash" if kind == "torn" else rng.choice(["crash", "crashafter"])
                n = G.pick_nth(rng, len(g[(op, t)]))
                c["faults"] = [[op, t, str(n), act, rng.randint(1, max(1, g[(op, t)][n - 1] - 1)) if kind == "torn" else 0]]
                if rng.random() < 0.2:
                    G.benign_io(rng, c)
            elif kind == "kill":
                c["kill_step"] = rng.randint(1, max(1, r.steps))
            elif kind == "hard":
                c["faults"] = [G.hard_fault(rng, g)]
            elif kind == "cap":
                t = STEPS[s][2]
                c["caps"] = [[t, rng.randint(0, max(0, sum(g.get(("write", t), [1])) - 1))]]
            else:
                c["alloc_fail"] = rng.randint(1, max(1, r.mallocs))
            scn["tries"].append([s, c])
        return scn

    def argv(self, scn, s):
        a = list(STEPS[s][1])
        return a + (["--tab-separator"] if scn["tab"] else []) + scn["metrics"] if s == 2 else a

    def put(self, scn, ctx):
        ctx.box.clean()
        for n in IN:
            ctx.box.put(n, T.unpack(scn[n]))

    def clean_runs(self, scn, ctx):
        self.put(scn, ctx)
        runs = [ctx.run(STEPS[s][0], self.argv(scn, s), scn["clean"]) for s in range(3)]
        return runs, {o: ctx.box.get(o) for _, _, o in STEPS}

    def check(self, scn, ctx):
        runs, want = self.clean_runs(scn, ctx)
        self.put(scn, ctx)
        for o, k in scn["stale"].items():
            w = want[o] or b""
            ctx.box.put(o, {"junk": b"\x00\xff junk\n" * 9, "long": w + b"stale,tail,1.0\n" * 700, "empty": b"",
                            "old": w.replace(b"1", b"2")}[k])
        fired = 0
        for s, c in scn["tries"]:
            exe, _, o = STEPS[s]
            before = {n: v for n, v in ctx.box.snapshot().items() if n != o}
            r = ctx.run(exe, self.argv(scn, s), c)
            fired += r.rc != 0
            after = {n: v for n, v in ctx.box.snapshot().items() if n != o}
            for n in set(before) | set(after):
                if before.get(n) != after.get(n) and (n in before):
                    raise Violation("input-harmed", "an interrupted %s changed %s; faults: %s" % (exe, n, [describe_log(l) for l in r.faults()][:3]))
        for s in range(3):
            exe, _, o = STEPS[s]
            r = ctx.run(exe, self.argv(scn, s), scn["final"])
            if r.rc != runs[s].rc:
                raise Violation("rerun-fails", "after %s the rerun of step %d exits with %d instead of %d: %s" % (self.what(scn), s, r.rc, runs[s].rc, T.errtext(r)))
            if r.out != runs[s].out:
                raise Violation("rerun-differs", "after %s the rerun of step %d (%s) prints something else: %s" % (self.what(scn), s, exe, T.first_diff(r.out, runs[s].out)))
        for o in want:
            got = ctx.box.get(o)
            if got != want[o]:
                raise Violation("stale-output", "after %s the rerun leaves another %s: %s" % (self.what(scn), o, T.first_diff(got or b"", want[o] or b"")))
        scn["_fired"] = fired

    def what(self, scn):
        return "%s and %s" % (scn["stale"] or "no earlier files", [(STEPS[s][0], {k: v for k, v in c.items() if k in ("faults", "caps", "kill_step", "alloc_fail")}) for s, c in scn["tries"]])

    def nontrivial(self, scn, ctx):
        return scn.get("_fired", 0) > 0

    def shrink(self, scn, ctx):
        yield from T.shrink_list(scn, ["tries"], 0)
        for o in list(scn["stale"]):
            s = T.edit(scn, ["tab"], scn["tab"])
            del s["stale"][o]
            yield s
        if scn["metrics"]:
            yield T.edit(scn, ["metrics"], [])
        for n in IN:
            yield from T.shrink_file(scn, [n])
        for j in range(len(scn["tries"])):
            yield from T.shrink_conf(scn, ["tries", j, 1])
