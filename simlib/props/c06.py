"""C06: the tools modify nothing but the named output file."""
from ..core import Property, Violation
from .. import gen as G, tools as T
from ..sim import describe_log
from . import s02


class P(Property):
    id = "C06"
    technique = "deterministic simulation with fault injection, file-system snapshots and a log of every path-changing call"
    quick, thorough = 2400, 60000
    uses_driver = False
    components = {"real": "elinor-convert, elinor-evaluate and elinor-compare binaries", "simulated": "threads, clock, entropy, file system calls, crashes", "stub": "none"}
    rule = "a scenario is one tool with well-formed, damaged, missing or odd inputs, valid or invalid options, decoy files all around, run under 4 seeded fault plans and schedules; non-trivial: a fault fired or the tool failed"
    assumptions = ["file access goes through libc (checked: the tools link no other system-call layer)"]

    def gen(self, rng, ctx, i, tier):
        tool = rng.choice(["convert", "evaluate", "compare"])
        files, out, a = {}, None, []
        damage = rng.random() < 0.35
        tr, pr = G.rels(rng, size=rng.choice(["small"] * 5 + ["mid"] * 6 + ["large"]), ws=tool == "evaluate") if rng.random() < 0.985 else G.vast(rng)
        sub = rng.choice(["", "", "d/", "résultat/"])
        if tool == "convert":
            kind = rng.choice(["true", "pred"])
            files["in.trec"] = G.trec_text(rng, tr if kind == "true" else pr, kind)
            out = sub + self.name(rng, "jsonl")
            a = ["-i", "in.trec", "--output-jsonl=" + out, "-r", kind if rng.random() < 0.92 else rng.choice(["both", "True", ""])]
        elif tool == "evaluate":
            files["true.jsonl"] = G.jsonl_text(rng, [(q, d, max(s, 0)) for q, d, s in tr], "true")
            files["pred.jsonl"] = G.jsonl_text(rng, [(q, d, G.json_score(rng, s)) for q, d, s in pr], "pred")
            a = ["-t", "true.jsonl", "-p", "pred.jsonl"]
            if rng.random() < 0.85:
                out = sub + self.name(rng, "csv")
                a += ["--output-csv=" + out]
            if rng.random() < 0.5:
                a += ["-m"] + (G.metrics(rng, 3) if rng.random() < 0.8 else ["ap@x", "nope"])
        else:
            tb = G.tables(rng)
            for j, f in enumerate(G.table_files(rng, tb, False)):
                files["s%02d.csv" % j] = f
            a = ["-i"] + sorted(files) + ["--n-resamples", "20", "--n-iters", "20", "-p", rng.choice(["raw", "pretty"] if rng.random() < 0.9 else ["json"])]
        if damage:
            n = rng.choice(sorted(files))
            files[n] = s02.damage(rng, files[n].encode("utf-8"))
        if rng.random() < 0.04:
            del files[rng.choice(sorted(files))]
        scn = {"tool": tool, "args": a, "out": out, "files": {n: T.pack(f) for n, f in files.items()}, "pre": rng.random() < 0.5, "sub": sub, "confs": [G.schedule(rng)]}
        self.put(scn, ctx)
        r = ctx.run(tool, a, scn["confs"][0])
        g = G.op_groups(r)
        for _ in range(3):
            c = G.schedule(rng)
            k = rng.random()
            if k < 0.7 and g:
                G.fault_plan(rng, r, c)
            elif k < 0.85 and r.steps > 1:
                c["kill_step"] = rng.randint(1, r.steps)
            elif any(o == "write" for o, t in g):
                t = rng.choice(sorted(t for o, t in g if o == "write"))
                c["faults"] = [["write", t, str(G.pick_nth(rng, len(g[("write", t)]))), "torncrash", rng.randint(1, 40)]]
            scn["confs"].append(c)
        return scn

    @staticmethod
    def name(rng, ext):
        return rng.choice(["out." + ext] * 4 + ["out", "o", "OUT.TXT", "out.v1." + ext, ".hidden", "out.", "out.tsv", "out.json", "out.csv.gz", "-out", "résult." + ext, "in.trec.jsonl", "true.csv", "x" * 120 + "." + ext])

    def put(self, scn, ctx):
        b = ctx.box
        b.clean()
        if scn["sub"]:
            b.put(scn["sub"] + "keep", b"x")
        for n, f in scn["files"].items():
            b.put(n, T.unpack(f))
        # files that some wrong idea of a temporary, backup or default output name could hit
        for n in list(scn["files"]) + ([scn["out"]] if scn["out"] else ["out.csv", "out.jsonl"]):
            for s in (".tmp", "~", ".bak", ".old", ".part"):
                b.put(n + s, b"decoy")
        for n in [scn["out"]] if scn["out"] else []:
            stem = n.rsplit(".", 1)[0] if "." in n.rsplit("/", 1)[-1][1:] else n
            for s in (".tmp", ".bak", ".csv", ".tsv", ".jsonl", ".json", ".parquet", ".lock", ".1"):
                if stem + s != n and stem + s not in scn["files"]:
                    b.put(stem + s, b"decoy")
        for n in ("output.csv", "output.jsonl", "result.csv", "out", "tmp", ".lock"):
            b.put(n, b"decoy")
        if scn["out"] and scn["pre"]:
            b.put(scn["out"], b"earlier output\n" * 50)

    def check(self, scn, ctx):
        out = scn["out"]
        busy = 0
        for c in scn["confs"]:
            self.put(scn, ctx)
            before = ctx.box.snapshot()
            r = ctx.run(scn["tool"], scn["args"], c)
            after = ctx.box.snapshot()
            busy += len(r.faults()) + (r.rc != 0)
            fl = [describe_log(l) for l in r.faults()][:3]
            for n in sorted(set(before) | set(after)):
                if n != out and before.get(n) != after.get(n):
                    how = "creates" if n not in before else "removes" if n not in after else "changes"
                    raise Violation("harm", "%s %s %s, which is not its output (exit %d); faults: %s" % (scn["tool"], how, n, r.rc, fl))
            if out in before and out not in after:
                raise Violation("harm", "%s removes its output %s" % (scn["tool"], out))
            for l in r.mutations():
                if l[3] != out:
                    raise Violation("path-call", "%s calls %s on %s (%s)" % (scn["tool"], l[2], l[3], l[5]))
            for l in r.io():
                if l[2] == "open" and l[5] != "read" and l[3] != out:
                    raise Violation("write-open", "%s opens %s for writing" % (scn["tool"], l[3]))
        scn["_busy"] = busy

    def nontrivial(self, scn, ctx):
        return scn.get("_busy", 0) > 0

    def shrink(self, scn, ctx):
        if len(scn["confs"]) > 1:
            for c in scn["confs"]:
                yield T.edit(scn, ["confs"], [c])
        if scn["pre"]:
            yield T.edit(scn, ["pre"], False)
        for n in scn["files"]:
            yield from T.shrink_file(scn, ["files", n])
        for j in range(len(scn["confs"])):
            yield from T.shrink_conf(scn, ["confs", j])
