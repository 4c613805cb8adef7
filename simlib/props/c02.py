"""C02: evaluate reports success only with a complete and correct report."""
import csv, io, math
from ..core import Property, Violation
from .. import gen as G, ref as R, tools as T
from ..sim import describe_log


def args(scn, csvname="out.csv"):
    a = ["-t", "true.jsonl", "-p", "pred.jsonl"]
    if scn.get("csv", True):
        a += ["-o", csvname]
    if scn.get("tab"):
        a += ["--tab-separator"]
    if scn.get("metrics"):
        a += ["-m"] + scn["metrics"]
    return a


def near(a, b, rel=1e-9):
    return a == b or math.isfinite(a) and math.isfinite(b) and abs(a - b) <= rel * max(1.0, abs(a), abs(b))


def printed(text, v, digits=4):
    """text is v rounded to so many digits."""
    if math.isinf(v):
        return text == ("inf" if v > 0 else "-inf")
    try:
        x = float(text)
    except ValueError:
        return False
    if "." not in text or len(text.split(".")[1]) != digits:
        return False
    return abs(x - v) <= 0.5 * 10 ** -digits + 1e-9 * max(1.0, abs(v))


def check_report(scn, trues, preds, out, csvb, where=""):
    """Raises ValueError unless the report is complete and correct."""
    names = scn.get("metrics") or R.DEFAULT_METRICS
    want = R.evaluate(trues, preds, names)
    qs = sorted({q for q, _, _ in preds}, key=R.skey)
    lines = out.decode("utf-8").split("\n")
    if lines[-1] != "":
        raise ValueError("the last line of the standard output is cut off")
    exp = [("n_queries_in_true", len({q for q, _, _ in trues})), ("n_queries_in_pred", len(qs)), ("n_docs_in_true", len(trues)),
           ("n_docs_in_pred", len(preds)), ("n_relevant_docs", sum(1 for _, _, s in trues if s > 0))]
    if len(lines) - 1 != len(exp) + len(names):
        raise ValueError("%d lines of output instead of %d" % (len(lines) - 1, len(exp) + len(names)))
    for l, (k, v) in zip(lines, exp):
        if l != "%s\t%d" % (k, v):
            raise ValueError("line %r instead of %s\t%d" % (l, k, v))
    for l, m in zip(lines[len(exp):], names):
        mean = sum(want[m].values()) / len(qs)
        f = l.split("\t")
        if len(f) != 2 or f[0] != R.canon_metric(m) or not printed(f[1], mean):
            raise ValueError("line %r instead of %s\t%.4f" % (l, R.canon_metric(m), mean))
    if not scn.get("csv", True):
        return
    if csvb is None:
        raise ValueError("no CSV file")
    if not csvb.endswith(b"\n"):
        raise ValueError("the CSV file is cut off: %r" % csvb[-60:])
    rows = list(csv.reader(io.StringIO(csvb.decode("utf-8"), newline=""), delimiter="\t" if scn.get("tab") else ",", strict=True))
    if rows[0] != ["query_id"] + [R.canon_metric(m) for m in names]:
        raise ValueError("CSV header %r" % rows[0])
    got = {}
    for r in rows[1:]:
        if len(r) != len(names) + 1 or r[0] in got:
            raise ValueError("CSV row %r" % r)
        got[r[0]] = [float(x) for x in r[1:]]
    if set(got) != set(qs):
        raise ValueError("the CSV file holds queries %r instead of %r" % (sorted(got)[:8], qs[:8]))
    for q in qs:
        for j, m in enumerate(names):
            if not near(got[q][j], want[m][q]):
                raise ValueError("%s of query %r is %r in the CSV file instead of %r" % (m, q, got[q][j], want[m][q]))


class P(Property):
    id = "C02"
    technique = "deterministic simulation with I/O and allocation fault injection, evaluate against a reference model of the metrics"
    quick, thorough = 1800, 50000
    uses_driver = False
    components = {"real": "elinor-evaluate binary, elinor library, polars CSV writer, rayon, serde_json, clap, Rust std I/O",
                  "simulated": "threads, clock, entropy, every file system call, stdout, allocation and thread-spawn failure", "stub": "none"}
    rule = "a scenario is one pair of JSON-lines files and a metric list evaluated under a fault-free run and 5 seeded fault plans; non-trivial: at least one fault fired"
    assumptions = ["the kernel's file system below the intercepted calls keeps what a successful write reports"]

    def gen(self, rng, ctx, i, tier):
        vast = rng.random() < 0.008
        tr, pr = G.vast(rng) if vast else G.rels(rng, size=rng.choice(["small", "small", "mid", "mid", "large"]), ws=True)
        tr = [(q, d, max(s, 0)) for q, d, s in tr]
        if rng.random() < 0.06 and not vast:
            huge = rng.choice([[0, 1, 30, 31, 32, 33], [0, 1, 52, 53, 54, 200], [1, 1000, 1022, 1023, 1024], [1, 1023, 1024, 1025, 5000], [0, 2**31 - 1, 2**31, 2**32 - 1]])
            tr = [(q, d, rng.choice(huge)) for q, d, s in tr]
        pr = [(q, d, G.json_score(rng, s)) for q, d, s in pr]
        scn = {"true": T.pack(G.jsonl_text(rng, tr, "true")), "pred": T.pack(G.jsonl_text(rng, pr, "pred")), "csv": rng.random() < 0.9, "tab": rng.random() < 0.3,
               "metrics": rng.choice([None, G.metrics(rng), G.all_metrics(rng)]), "pre": rng.choice([0, 0, 10, 100000]),
               "confs": [G.schedule(rng)]}
        self.put(scn, ctx)
        r = ctx.run("evaluate", args(scn), scn["confs"][0])
        for _ in range(1 if vast else 5):
            c = G.schedule(rng) if rng.random() < 0.5 else G.quiet(rng)
            if r.rc == 0:
                G.fault_plan(rng, r, c)
            scn["confs"].append(c)
        return scn

    def put(self, scn, ctx):
        ctx.box.clean()
        ctx.box.put("true.jsonl", T.unpack(scn["true"]))
        ctx.box.put("pred.jsonl", T.unpack(scn["pred"]))
        if scn["pre"]:
            ctx.box.put("out.csv", b"stale,1\n" * (scn["pre"] // 8 + 1))

    def check(self, scn, ctx):
        try:
            trues, preds = R.jsonl(T.unpack(scn["true"]), "true"), R.jsonl(T.unpack(scn["pred"]), "pred")
            R.evaluate(trues, preds, [])
            ok = bool(preds)
        except R.Bad:
            ok = False
        fired = 0
        for c in scn["confs"] if ok else ():
            self.put(scn, ctx)
            r = ctx.run("evaluate", args(scn), c)
            fired += len(r.faults())
            fl = [describe_log(l) for l in r.faults()][:5]
            if r.rc == 0:
                ctx.probes["exit 0 after a hard fault"] += bool(T.excused(r))
                try:
                    check_report(scn, trues, preds, r.out, ctx.box.get("out.csv"))
                except (ValueError, csv.Error) as e:
                    raise Violation("wrong-report", "evaluate succeeds but %s; faults: %s" % (e, fl))
            elif not T.excused(r):
                raise Violation("fails", "on well-formed inputs and without a failing operation, " + T.fail_text("evaluate", r))
            else:
                ctx.probes["failure reported"] += 1
        scn["_fired"] = fired

    def nontrivial(self, scn, ctx):
        return scn.get("_fired", 0) > 0

    def shrink(self, scn, ctx):
        if len(scn["confs"]) > 1:
            for c in scn["confs"]:
                yield T.edit(scn, ["confs"], [c])
        if scn["pre"]:
            yield T.edit(scn, ["pre"], 0)
        if scn["metrics"]:
            yield from T.shrink_list(scn, ["metrics"])
        yield from T.shrink_file(scn, ["true"])
        yield from T.shrink_file(scn, ["pred"])
        for j in range(len(scn["confs"])):
            yield from T.shrink_conf(scn, ["confs", j])
