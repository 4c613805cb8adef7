"""C03: compare reports success only with a complete and correct report."""
import csv, io
import numpy as np
from ..core import Property, Violation
from .. import gen as G, ref as R, tools as T, report
from ..sim import describe_log

N_REP = [1, 20, 50, 200, 500, 1000, 1000, 3000, 10000, None]   # None: 10000 by default
NAMES = ["a.csv", "b.csv", "c.csv", "d.csv", "e.csv"]
NAMES2 = ["système-1.csv", "x/y/run.csv", "漢.tsv", "run#2", "z.csv"]


def args(scn, names=None):
    names = names or scn["paths"]
    a = ["-i"] + names
    if scn.get("tab"):
        a += ["--tab-separator"]
    if scn.get("mode") == "raw" or scn.get("spell"):
        a += ["-p", scn["mode"]]
    for o, v in (("--n-resamples", scn["B"]), ("--n-iters", scn["I"])):
        if v is not None:
            a += [o, str(v)]
    return a


def read_tables(files, tab):
    """Header, and topic -> values, of each file."""
    out = []
    for f in files:
        rows = list(csv.reader(io.StringIO(f.decode("utf-8"), newline=""), delimiter="\t" if tab else ",", strict=True))
        d = {}
        for r in rows[1:]:
            if r[0] in d or len(r) != len(rows[0]):
                raise R.Bad("table")
            d[r[0]] = [float(x) for x in r[1:]]
        out.append((rows[0], d))
    return out


def unfilled(files, tab):
    """Whether some topic lacks a number for a metric all files have; None if the files do not compare at all."""
    tabs = []
    for f in files:
        rows = list(csv.reader(io.StringIO(f.decode("utf-8"), newline=""), delimiter="\t" if tab else ",", strict=True))
        if len(rows) < 2 or any(not r or len(r) > len(rows[0]) for r in rows):
            return None
        tabs.append(rows)
    heads = [t[0] for t in tabs]
    tops = [[r[0] for r in t[1:]] for t in tabs]
    if any(len(set(h)) < len(h) or h[0] != heads[0][0] for h in heads) or any(len(set(t)) < len(t) or set(t) != set(tops[0]) for t in tops):
        return None
    for h, t in zip(heads, tabs):
        for i, m in enumerate(h):
            if i and all(m in g for g in heads):
                for r in t[1:]:
                    try:
                        float(r[i])
                    except (IndexError, ValueError):
                        return True
    return False


def damage(rng, f, sep):
    """A table with a cell torn out, a torn row, or its end lost."""
    L, quoted = [""], False
    for ch in f.decode("utf-8"):
        quoted ^= ch == '"'
        if ch == "\n" and not quoted:
            L.append("")
        else:
            L[-1] += ch
    rows = [i for i in range(1, len(L)) if L[i].strip("\r")]
    i = rng.choice(rows)
    k = rng.choice(["blank", "blank", "blank", "word", "ragged", "end", "cell end"])
    c = L[i].rstrip("\r").split(sep)
    n = min(len(c), len(next(csv.reader([L[0].rstrip("\r")], delimiter=sep))))
    j = rng.randint(1, max(1, n - 1))
    if k == "blank":
        c[-j] = ""
    elif k == "word":
        c[-j] = rng.choice(["x", "-", "N/A", "null", "0.5.5", "0x1", "--1", "1;5", "?"])
    elif k == "ragged":
        c = c[:len(c) - j]
    elif k == "cell end":
        c[-1] = c[-1][:rng.randint(0, len(c[-1]))]
    if k in ("end", "cell end"):
        L = L[:i]
        if k == "end":
            t = sep.join(c)
            c = [t[:rng.randint(0, len(t))]]
        return "\n".join(L + [sep.join(c)]).encode("utf-8")
    L[i] = sep.join(c) + ("\r" if L[i].endswith("\r") else "")
    return "\n".join(L).encode("utf-8")


def aligned(tabs):
    """The metrics all files have and their topics x systems matrices; None if the files do not compare."""
    names = [m for m in tabs[0][0][1:] if all(m in t[0] for t in tabs)]
    topics = list(tabs[0][1])
    if any(set(t[1]) != set(topics) or t[0][0] != tabs[0][0][0] for t in tabs):
        return None
    return names, {m: np.array([[t[1][q][t[0].index(m) - 1] for t in tabs] for q in topics]) for m in names}


class P(Property):
    id = "C03"
    technique = "deterministic simulation with fault injection and random thread schedules, compare against reference statistics"
    quick, thorough = 900, 20000
    uses_driver = False
    components = {"real": "elinor-compare binary, elinor library, polars CSV reader and lazy engine, rayon, crossbeam, statrs, prettytable, Rust std",
                  "simulated": "threads, clock, entropy, every file system call and mapping, stdout, allocation and thread-spawn failure", "stub": "none"}
    rule = "a scenario is a set of 1 to 5 score tables compared under one fault-free run and 4 seeded fault plans and schedules; non-trivial: at least one fault fired or context switch made"
    assumptions = ["the kernel's file system below the intercepted calls", "scipy's Student and F distributions to 1e-6"]

    def gen(self, rng, ctx, i, tier):
        tb = G.tables(rng)
        tab = rng.random() < 0.3
        flat = tb["m"] > 1 and rng.random() < 0.06
        if flat:     # for some metric the systems differ by the same amount on every topic
            k = rng.choice(tb["names"])
            tb["data"][k] = [[rng.choice([0, 0.25, 0.5, 1])] * tb["m"] for _ in tb["topics"]]
            if rng.random() < 0.4:
                tb["data"][k] = [[a + 0.25 * (j > 0) for j, a in enumerate(r)] for r in tb["data"][k]]
        files = [f.encode("utf-8") for f in G.table_files(rng, tb, tab)]
        hurt = len(files) > 1 and rng.random() < 0.2
        if hurt:
            j = rng.randrange(len(files))
            files[j] = damage(rng, files[j], "\t" if tab else ",")
        scn = {"files": [T.pack(f) for f in files], "tab": tab, "paths": (NAMES if rng.random() < 0.7 else NAMES2)[:tb["m"]] if tb["m"] <= 5 else ["s%02d.csv" % j for j in range(tb["m"])],
               "mode": rng.choice(["raw", "pretty"]), "spell": rng.random() < 0.3, "B": rng.choice(N_REP), "I": rng.choice(N_REP),
               "confs": [G.schedule(rng)]}
        if hurt:
            scn["hurt"] = True
        self.put(scn, ctx)
        r = ctx.run("compare", args(scn), scn["confs"][0])
        for _ in range(4):
            c = G.schedule(rng, steps=r.steps)
            if r.rc == 0:
                G.fault_plan(rng, r, c)
            scn["confs"].append(c)
        if r.rc == 0 and rng.random() < 0.1:
            # every other or every few of the report's lines is lost
            n = len(G.op_groups(r).get(("write", "stdout"), []))
            step = max(1, n // 20)
            for k in range(rng.randint(1, step), n + 1, step):
                scn["confs"].append(dict(G.quiet(rng), faults=[["write", "stdout", str(k), "err", rng.choice(G.WRITE_ERR)]]))
        return scn

    def put(self, scn, ctx):
        ctx.box.clean()
        for p, f in zip(scn["paths"], scn["files"]):
            ctx.box.put(p, T.unpack(f))

    def check(self, scn, ctx):
        try:
            tabs = read_tables([T.unpack(f) for f in scn["files"]], scn["tab"])
            al = aligned(tabs)
        except (R.Bad, csv.Error, ValueError, IndexError):
            al = None
        busy = 0
        if al is None and scn.get("hurt"):
            return self.hurt(scn, ctx)
        if al is None or not al[0]:
            return
        if not self.fine(al[1]):
            return self.flat(scn, ctx, al[0])
        names, X = al
        for c in scn["confs"]:
            self.put(scn, ctx)
            r = ctx.run("compare", args(scn), c)
            busy += len(r.faults()) + r.switches
            fl = [describe_log(l) for l in r.faults()][:5]
            if r.rc == 0:
                ctx.probes["exit 0 after a hard fault"] += bool(T.excused(r))
                try:
                    report.check(r.out, scn["mode"], scn["paths"], names, X, scn["B"] or 10000, scn["I"] or 10000, len(tabs[0][1]), len(tabs[0][0]) - 1)
                except (ValueError, IndexError) as e:
                    raise Violation("wrong-report", "compare succeeds but %s; faults: %s" % (e, fl))
            elif not T.excused(r) and not scn.get("hurt"):
                raise Violation("fails", "on well-formed inputs and without a failing operation, " + T.fail_text("compare", r))
            else:
                ctx.probes["failure reported"] += 1
        scn["_busy"] = busy

    def flat(self, scn, ctx, names):
        """Where a test is not defined, no report that leaves a metric out is complete."""
        busy = 0
        for c in scn["confs"]:
            self.put(scn, ctx)
            r = ctx.run("compare", args(scn), c)
            busy += len(r.faults()) + r.switches
            ctx.probes["undefined test refused"] += r.rc != 0
            if r.rc == 0:
                for title, rows in report.parse(r.out, scn["mode"]):
                    got = [x[0] for x in rows[1:]]
                    if rows and rows[0][0] == "Metric" and len(scn["files"]) == 2 and got != names:
                        raise Violation("leaves-out", "compare succeeds, but its section %r has the metrics %r of %r" % (title, got, names))
                if len(scn["files"]) > 2 and [n for n in names if b"\n# " + n.encode("utf-8") + b"\n" not in r.out]:
                    raise Violation("leaves-out", "compare succeeds, but leaves out some metric of %r" % names)
        scn["_busy"] = busy

    def hurt(self, scn, ctx):
        """No report on tables that lack a score is complete and correct."""
        try:
            if not unfilled([T.unpack(f) for f in scn["files"]], scn["tab"]):
                return
        except (UnicodeDecodeError, csv.Error):
            return
        busy = 0
        for c in scn["confs"]:
            self.put(scn, ctx)
            r = ctx.run("compare", args(scn), c)
            busy += len(r.faults()) + r.switches
            ctx.probes["damaged table refused"] += r.rc != 0
            if r.rc == 0:
                raise Violation("lacks-score", "compare succeeds although a topic lacks a score of a metric that all files have")
        scn["_busy"] = busy

    @staticmethod
    def fine(X):
        for A in X.values():
            n, m = A.shape
            if not np.isfinite(A).all():
                return False
            if n < 2 or (m > 2 and n < 3):
                return False
            s = max(1.0, np.abs(A).max())
            if m == 2 and (A[:, 0] - A[:, 1]).var() < 1e-5 * s * s:
                return False
            if m > 2:
                D = A - A.mean(axis=1, keepdims=True)
                D = D - D.mean(axis=0, keepdims=True)
                if (D ** 2).mean() < 1e-5 * s * s:
                    return False
        return True

    def nontrivial(self, scn, ctx):
        return scn.get("_busy", 0) > 0

    def shrink(self, scn, ctx):
        if len(scn["confs"]) > 1:
            for c in scn["confs"]:
                yield T.edit(scn, ["confs"], [c])
        if len(scn["files"]) > 2:
            for j in range(len(scn["files"])):
                s = T.edit(scn, ["files"], scn["files"][:j] + scn["files"][j + 1:])
                s["paths"] = s["paths"][:j] + s["paths"][j + 1:]
                yield s
        yield from shrink_rows(scn)
        for j in range(len(scn["confs"])):
            yield from T.shrink_conf(scn, ["confs", j])


def shrink_rows(scn):
    """Drops topics from all files at once."""
    if any(isinstance(f, dict) for f in scn["files"]):
        return
    sep = "\t" if scn["tab"] else ","
    key = lambda l: l.rsplit(sep, len(scn["files"][0][0].split(sep)) - 1)[0]
    tops = [key(l) for l in scn["files"][0][1:] if l]
    for keep in T.cuts(tops, 2):
        k = set(keep)
        s = T.edit(scn, ["files"], [[f[0]] + [l for l in f[1:] if not l or key(l) in k] for f in scn["files"]])
        yield s
