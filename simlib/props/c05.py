"""C05: reports do not depend on thread scheduling, CPU count, hash seeds or clock."""
import re
from ..core import Property, Violation
from .. import gen as G, tools as T
from ..sim import describe_log
from . import c03, s02

RANDOM = (b"# Two-sided paired Bootstrap", b"# Fisher's randomized", b"## p-values for randomized")


def mask(out):
    """The report without the randomised p-values."""
    res, on = [], False
    for l in out.split(b"\n"):
        if l.startswith(b"#"):
            on = l.startswith(RANDOM)
        res.append(re.sub(rb"[01]\.\d{4}", b"?", l) if on and not l.startswith(b"#") else l)
    return b"\n".join(res)


class P(Property):
    id = "C05"
    technique = "deterministic simulation: the same inputs under many seeded schedules, CPU counts, entropy streams, clocks and I/O splittings"
    quick, thorough = 1200, 24000
    uses_driver = False
    components = {"real": "the three tools with polars, rayon and crossbeam", "simulated": "threads, clock, entropy (hash seeds), CPU count, split and interrupted I/O, spurious wake-ups", "stub": "none"}
    rule = "a scenario is one tool and its inputs (a quarter large enough for parallel reading) under one baseline and 6 random simulator settings; non-trivial: at least two different interleavings or entropy-dependent executions"
    assumptions = ["interleavings are explored at synchronisation operations, allocations and system calls, under sequential consistency"]

    def gen(self, rng, ctx, i, tier):
        tool = rng.choice(["compare", "compare", "compare", "evaluate", "evaluate", "convert"])
        size = rng.choice(["small", "mid", "large"])
        files, out = {}, None
        if tool == "compare":
            big = rng.random() < 0.2
            tb = G.tables(rng, n=rng.choice([300, 900, 2500]) if big else None, nm=1 if big else None)
            tab = rng.random() < 0.3
            for j, f in enumerate(G.table_files(rng, tb, tab)):
                files["s%02d.csv" % j] = f
            a = ["-i"] + sorted(files) + ["--n-resamples", "10", "--n-iters", "10", "-p", rng.choice(["raw", "pretty"])] + (["--tab-separator"] if tab else [])
        else:
            tr, pr = G.rels(rng, size=size, ws=tool == "evaluate")
            ms = G.all_metrics(rng) if rng.random() < 0.7 else []
            if rng.random() < 0.15:
                tr, pr, ms = G.halfway(rng)
            if tool == "convert":
                kind = rng.choice(["true", "pred"])
                files["in.trec"] = G.trec_text(rng, tr if kind == "true" else pr, kind)
                out = "out.jsonl"
                a = ["-i", "in.trec", "-o", out, "-r", kind]
            else:
                files["true.jsonl"] = G.jsonl_text(rng, [(q, d, max(s, 0)) for q, d, s in tr], "true")
                files["pred.jsonl"] = G.jsonl_text(rng, [(q, d, G.json_score(rng, s)) for q, d, s in pr], "pred")
                out = "out.csv"
                a = ["-t", "true.jsonl", "-p", "pred.jsonl", "-o", out] + (["-m"] + ms if ms else [])
        if rng.random() < 0.1:
            n = rng.choice(sorted(files))
            files[n] = s02.damage(rng, files[n].encode("utf-8"))
        confs = [{"sched_seed": 1, "entropy_seed": 1, "ncpu": 1, "manual": 1}]
        for _ in range(6):
            c = G.schedule(rng, steps=20000)
            if rng.random() < 0.5:
                G.benign_io(rng, c)
            if rng.random() < 0.2:
                c["rnd_enosys"] = 1
            if rng.random() < 0.3:
                c["p_rnd_short"] = c["p_rnd_eintr"] = 1 << 30
            confs.append(c)
        return {"tool": tool, "args": a, "out": out, "files": {n: T.pack(f) for n, f in files.items()}, "confs": confs}

    def one(self, scn, ctx, c):
        ctx.box.clean()
        for n, f in scn["files"].items():
            ctx.box.put(n, T.unpack(f))
        r = ctx.run(scn["tool"], scn["args"], c)
        return r, mask(r.out), ctx.box.get(scn["out"]) if scn["out"] else None

    def check(self, scn, ctx):
        r0, o0, f0 = self.one(scn, ctx, scn["confs"][0])
        seen = {r0.sw_hash}
        for c in scn["confs"][1:]:
            r, o, f = self.one(scn, ctx, c)
            seen.add(r.sw_hash ^ c["entropy_seed"])
            how = "schedule seed %s, entropy %s, %s CPUs, clock %s" % (c.get("sched_seed"), c.get("entropy_seed"), c.get("ncpu"), c.get("clock0"))
            if r.rc != r0.rc:
                raise Violation("exit", "%s exits with %d under the baseline and %d under %s: %s" % (scn["tool"], r0.rc, r.rc, how, T.errtext(r)))
            if o != o0:
                raise Violation("report", "the output of %s differs under %s: %s" % (scn["tool"], how, T.first_diff(o, o0)))
            if f != f0:
                raise Violation("file", "the output file of %s differs under %s: %s" % (scn["tool"], how, T.first_diff(f or b"", f0 or b"")))
            if r.rc == 1 and r.err != r0.err:
                raise Violation("message", "the error message of %s differs under %s: %r, %r" % (scn["tool"], how, r.err[-200:], r0.err[-200:]))
        scn["_seen"] = len(seen)

    def nontrivial(self, scn, ctx):
        return scn.get("_seen", 0) > 1

    def shrink(self, scn, ctx):
        if len(scn["confs"]) > 2:
            for c in scn["confs"][1:]:
                yield T.edit(scn, ["confs"], [scn["confs"][0], c])
            return
        c = scn["confs"][1]
        if "manual" not in c and c.get("p_switch"):
            # from a seeded schedule to the explicit list of its context switches
            r = self.one(scn, ctx, c)[0]
            sw = ctx.box.switches(r)
            if sw is not None and len(sw) < 20000:
                d = {k: v for k, v in c.items() if k not in ("p_switch", "pct", "pct_at")}
                d.update(manual=1, switches=sw)
                yield T.edit(scn, ["confs", 1], d)
        for n in scn["files"]:
            if "manual" in c and c.get("switches"):
                break
            yield from T.shrink_file(scn, ["files", n], 1)
        yield from T.shrink_conf(scn, ["confs", 1])
