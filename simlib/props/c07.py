"""C07: compare pairs scores by topic, in any row order, and refuses other topics."""
import csv, hashlib
from ..core import Property, Violation
from .. import gen as G, ref as R, tools as T, report
from . import c03


def key(seed, x):
    return hashlib.sha256(("%d/%s" % (seed, x)).encode("utf-8", "surrogatepass")).digest()


FAMILIES = [["ap", "ap@5", "ap@50", "ap@500"], ["ndcg", "ndcg@1", "ndcg@10", "ndcg_burges", "ndcg_burges@10"], ["dcg", "dcg@3", "ndcg", "dcg_burges", "ndcg@3"], ["recall", "recall@1", "precision", "precision@1", "r_precision"], ["rr", "RR", "rr_", "rr@1"]]


def alike(rng, t):
    """Another topic that looks like t."""
    return rng.choice([lambda: "0" + t, lambda: t + ".0", lambda: t + " ", lambda: " " + t, lambda: t.swapcase() if t.swapcase() != t else t + "x", lambda: t + "0", lambda: t[:-1] or "y", lambda: "+" + t,
                       lambda: t + "\u200b", lambda: t + t])()


class P(Property):
    id = "C07"
    technique = "deterministic simulation: lost, repeated, extra and reordered rows under random worker schedules, compare against reference statistics"
    quick, thorough = 800, 16000
    uses_driver = False
    components = {"real": "elinor-compare with polars, rayon and crossbeam", "simulated": "threads, clock, entropy, split and interrupted I/O", "stub": "none"}
    rule = "a scenario is a set of 2 to 5 score tables, compared in 3 row and column orders, and 3 tables with a lost, extra, renamed or repeated topic, each under its own schedule; non-trivial: every scenario"
    assumptions = ["scipy's Student and F distributions to 1e-6"]

    def gen(self, rng, ctx, i, tier):
        big = rng.random() < 0.06
        tb = G.tables(rng, m=rng.choice([2, 2, 3, 4, 5]), wide=0 if big else 0.04, n=rng.choice([200, 700, 700, 1500]) if big else None, nm=1 if big else None)
        n, m = len(tb["topics"]), tb["m"]
        if rng.random() < 0.4:
            # metrics whose names begin or end alike
            fam = rng.choice(FAMILIES)
            new = rng.sample(fam, min(len(fam), len(tb["names"])))
            tb["data"] = {b: tb["data"][a] for a, b in zip(tb["names"], new)}
            tb["names"] = new
        vs = []
        for _ in range(3):
            v = {"rows": [rng.randrange(10**6) for _ in range(m)], "cols": [rng.randrange(10**6) for _ in range(m)], "conf": G.schedule(rng)}
            if rng.random() < 0.4:
                G.benign_io(rng, v["conf"])
            if len(tb["names"]) > 1 and rng.random() < 0.4:
                v["drop"] = [rng.randrange(m), rng.choice(tb["names"])]
            if rng.random() < 0.25:
                v["add"] = rng.randrange(m)
                near = [x for f in FAMILIES for x in f if x not in tb["names"]]
                v["added"] = rng.choice(["only_here", rng.choice(near), tb["names"][0] + rng.choice(["@7", "0", "x"]), tb["names"][0][:-1] or "zz"])
                if v["added"] in tb["names"]:
                    del v["added"]
            vs.append(v)
        for _ in range(3):
            j, t = rng.randrange(m), rng.randrange(n)
            k = rng.choice(["lose", "lose", "extra", "alike", "alike", "dup", "dup", "dup2", "rename", "swaplose", "bytes"])
            v = {"rows": [rng.randrange(10**6) for _ in range(m)], "cols": [0] * m, "conf": G.schedule(rng), "bad": [k, j, t, rng.randrange(10**6)]}
            if rng.random() < 0.3:
                v["rows"] = [0] * m
            vs.append(v)
        return {"topics": tb["topics"], "head": tb["head"], "m": m, "names": tb["names"], "data": tb["data"], "tab": rng.random() < 0.3, "mode": rng.choice(["raw", "pretty"]), "B": 50, "I": 50, "variants": vs}

    def table(self, scn, v, j):
        """Header and rows of file j in variant v."""
        tops = scn["topics"]
        names = list(scn["names"])
        if v["cols"][j]:
            names.sort(key=lambda x: key(v["cols"][j], x))
        rows = [[t] + [scn["data"][nme][i][j] for nme in names] for i, t in enumerate(tops)]
        if v.get("drop") and v["drop"][0] == j and len(names) > 1:
            d = names.index(v["drop"][1])
            names = names[:d] + names[d + 1:]
            rows = [r[:d + 1] + r[d + 2:] for r in rows]
        if v.get("add") == j:
            at = (v["rows"][j] % (len(names) + 1)) if v.get("added") else len(names)
            names = names[:at] + [v.get("added", "only_here")] + names[at:]
            rows = [r[:1 + at] + [0.5] + r[1 + at:] for r in rows]
        if v.get("bad") and (v["bad"][1] == j or v["bad"][0] in ("swaplose", "bytes")):
            import random
            k, _, t, s = v["bad"]
            rng = random.Random(s)
            t %= len(rows)
            r = rows[t]
            if k == "lose":
                del rows[t]
            elif k == "extra":
                rows.insert(rng.randint(0, len(rows)), ["another"] + r[1:])
            elif k in ("alike", "rename"):
                x = alike(rng, r[0]) if k == "alike" else "another"
                if x in tops:
                    x = "another"
                rows[t] = [x] + r[1:]
            elif k == "bytes":     # topics that no text has, alike to one that reads them as well as it can
                rows[t] = [r[0] + "\udc80\udcff\udcfe\udcc3"[(s + (j == v["bad"][1])) % 4]] + r[1:]
            elif k == "dup":
                rows.insert(rng.randint(0, len(rows)), list(r))
            elif k == "dup2":
                rows.insert(rng.randint(0, len(rows)), [r[0]] + [x + 1 for x in r[1:]])
            elif k == "swaplose":  # every file lacks another topic: equal counts
                del rows[(t + j) % len(rows)]
        if v["rows"][j]:
            rows.sort(key=lambda r: key(v["rows"][j], repr(r)))
        return [scn["head"]] + names, rows

    def text(self, scn, v, j):
        head, rows = self.table(scn, v, j)
        sep = "\t" if scn["tab"] else ","
        return "".join(sep.join([G.quote(r[0], sep)] + [repr(float(x)) if not isinstance(x, str) else G.quote(x, sep) for x in r[1:]]) + "\n" for r in [head] + rows)

    def check(self, scn, ctx):
        paths = ["s%d.csv" % j for j in range(scn["m"])]
        for v in scn["variants"]:
            ctx.box.clean()
            fs = [self.text(scn, v, j).encode("utf-8", "surrogateescape") for j in range(scn["m"])]
            for p, f in zip(paths, fs):
                ctx.box.put(p, f)
            r = ctx.run("compare", c03.args(dict(scn, paths=paths)), v["conf"])
            if v.get("bad"):
                tops = [[x[0] for x in self.table(scn, v, j)[1]] for j in range(scn["m"])]
                same = all(len(set(t)) == len(t) and set(t) == set(tops[0]) for t in tops)
                if same or any(len(t) < 1 for t in tops):
                    continue
                ctx.probes["refused: " + v["bad"][0]] += r.rc != 0
                if r.rc == 0:
                    raise Violation("accepts", "compare succeeds on files with other topics (%s in file %d)" % (v["bad"][0], v["bad"][1]))
                continue
            tabs = c03.read_tables(fs, scn["tab"])
            names, X = c03.aligned(tabs)
            if not names or not c03.P.fine(X):
                continue
            if r.rc != 0:
                raise Violation("fails", T.fail_text("compare", r))
            ctx.probes["compared"] += 1
            try:
                report.check(r.out, scn["mode"], paths, names, X, scn["B"], scn["I"], len(tabs[0][1]), len(tabs[0][0]) - 1)
            except (ValueError, IndexError) as e:
                raise Violation("wrong-report", "with rows in another order, %s" % e)

    def shrink(self, scn, ctx):
        yield from T.shrink_list(scn, ["variants"])
        n = len(scn["topics"])
        for keep in T.cuts(list(range(n)), 2 if scn["m"] == 2 else 3):
            s = T.edit(scn, ["topics"], [scn["topics"][i] for i in keep])
            s["data"] = {k: [x[i] for i in keep] for k, x in scn["data"].items()}
            yield s
        for j in range(len(scn["names"])):
            if len(scn["names"]) > 1:
                nm = scn["names"][:j] + scn["names"][j + 1:]
                if not any(v.get("drop") and v["drop"][1] not in nm for v in scn["variants"]):
                    yield T.edit(scn, ["names"], nm)
        for i, v in enumerate(scn["variants"]):
            for j in range(scn["m"]):
                for k in ("rows", "cols"):
                    if v[k][j]:
                        yield T.edit(scn, ["variants", i, k, j], 0)
            yield from T.shrink_conf(scn, ["variants", i, "conf"])
