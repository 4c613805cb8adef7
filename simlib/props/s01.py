"""S01: a store built from racing, repeating producers holds each judgement once."""
import struct
from ..core import Property, Violation
from .. import gen as G, tools as T
from ..drive import Shared, drive, world, short, plain, ALONE


def fl(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def hx(b):
    return "%016x" % b


def utf(s):
    return s.encode("utf-8", "surrogatepass")


def expect(kind, recs):
    """The dump of a store holding recs: (q, d) -> score."""
    val = (lambda s: s) if kind == "t" else (lambda s: fl(s))
    out = (lambda s: s) if kind == "t" else hx
    qs = {}
    for (q, d), s in recs.items():
        qs.setdefault(q, []).append((d, s))
    records, queries = [], []
    for q in sorted(qs, key=utf):
        ranked = sorted(qs[q], key=lambda x: (-val(x[1]), utf(x[0])))
        records += [[q, d, out(s)] for d, s in ranked]
        queries.append([q, [[d, out(s)] for d, s in ranked], [[d, out(s)] for d, s in sorted(qs[q], key=lambda x: utf(x[0]))]])
    return {"records": records, "queries": queries, "n_queries": len(qs), "n_docs": len(recs)}


class P(Shared):
    id = "S01"
    technique = "deterministic simulation of producer threads with duplicated, reordered and cancelled deliveries, against a map that keeps the first arrival"
    quick, thorough = 4000, 100000
    rule = ("a scenario is 1 to 3 builders shared by 1 to 5 producer threads that deliver a set of records in any order, some repeatedly with other scores, some cancelled in the middle, plus bulk "
            "constructions, under 3 schedules; non-trivial: at least one repeated delivery or cancellation")

    def gen(self, rng, ctx, i, tier):
        size = rng.choice(["small", "small", "small", "mid", "mid", "large"])
        Tr, Pr = G.rels(rng, size=size, ws=True)
        if size == "large":
            Tr, Pr = Tr[:700], Pr[:700]
        key = rng.choice(["sim", "sim", "String"])
        tb, pb = rng.choice([(1, 0), (0, 1), (1, 1), (2, 1)])
        dl = []
        score = {"t": lambda: rng.choice([0, 0, 1, 1, 2, 3, 7, 2**31, 2**32 - 1]), "p": lambda: G.fbits(rng.choice([0.0, -0.0, 0.5, 1.0, 1.0, -1.0, 2.5, 1e-300, float("inf"), float("-inf"), rng.random()]))}
        for b in range(tb):
            dl += [["addt", b, q, d, max(int(s), 0) if rng.random() < 0.8 else score["t"]()] for q, d, s in Tr]
        for b in range(pb):
            dl += [["addp", b, q, d, G.fbits(float(s)) if rng.random() < 0.8 else score["p"]()] for q, d, s in Pr]
        order = rng.choice(["shuffled", "sorted", "as"])
        if order == "shuffled":
            rng.shuffle(dl)
        elif order == "sorted":
            dl.sort(key=lambda o: (o[0], o[1], o[2], o[3]))
        pd = rng.choice([0, 0.1, 0.4, 1.0])
        nt = rng.randint(1, 5)
        th = [[] for _ in range(nt)]
        fuse = rng.choice([0, 0, 0.1, 0.3]) if key == "sim" else 0
        for o in dl:
            copies = [o]
            while rng.random() < pd / 2 and len(copies) < 5:
                c = list(o)
                if rng.random() < 0.6:
                    c[4] = score[o[0][-1]]()
                copies.append(c)
            for c in copies:
                t = rng.randrange(nt)
                x = {"op": c, "fuse": int(10 ** rng.uniform(0, 1.3))} if rng.random() < fuse else c
                if rng.random() < 0.5:
                    th[t].append(x)
                else:
                    th[t].insert(rng.randint(0, len(th[t])), x)
        # bulk constructions, alone in their thread
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(["true", "pred"])
            src = Tr if k == "true" else Pr
            recs = [[q, d, max(int(s), 0) if k == "true" else G.fbits(float(s))] for q, d, s in src]
            rng.shuffle(recs)
            if rng.random() < 0.4:
                r = list(rng.choice(recs))
                if rng.random() < 0.5:
                    r[2] = score["t" if k == "true" else "p"]()
                recs.insert(rng.randint(0, len(recs)), r)
            o = ["from", k, recs]
            th[rng.randrange(nt)].append({"op": o, "hint": rng.choice([1, 2])} if rng.random() < 0.4 else o)
        if rng.random() < 0.03:
            th = [[]]
        allp = [[o[2], o[3]] for o in dl] or [["q", "d"]]
        probe = [rng.choice(allp) for _ in range(4)] + [["absent", "x"], [rng.choice(allp)[0], "absent"], [rng.choice(allp)[0], rng.choice(allp)[1]]]
        return {"key": key, "tb": tb, "pb": pb, "threads": th, "probe": probe, "confs": self.confs(rng, 3, nblocks=size != "large")}

    def judge(self, scn, out, ctx):
        ev = {}
        scn["_nt"] = scn.get("_nt", False)
        for ti, (ops, res) in enumerate(zip(scn["threads"], out["threads"])):
            for oi, (o, (got, b, e)) in enumerate(zip(ops, res)):
                op = plain(o)
                if isinstance(got, dict) and "panic" in got:
                    raise Violation("panics", "%s panics: %s" % (short(op), got["panic"]))
                if op[0] == "from":
                    self.bulk(op, got)
                    continue
                k = (op[0][-1], op[1])
                if isinstance(got, dict) and "cancelled" in got:
                    if not isinstance(o, dict):
                        raise Violation("panics", "%s was cancelled" % short(op))
                    ev.setdefault(k, []).append((b, e, ti, oi, "cancelled", op))
                elif "ok" in got:
                    ev.setdefault(k, []).append((got["ok"], got["ok"], ti, oi, "ok", op))
                else:
                    if got["e"].get("err") != "DuplicateEntry":
                        raise Violation("error", "%s is refused with %s" % (short(op), short(got)))
                    ev.setdefault(k, []).append((got["dup"], got["dup"], ti, oi, "dup", op))
        builders = [("t", b) for b in range(scn["tb"])] + [("p", b) for b in range(scn["pb"])]
        for k, built in zip(builders, out["built"]):
            by = {}
            for x in ev.get(k, []):
                by.setdefault((x[5][2], x[5][3]), []).append(x)
            shown = {}
            for q, sorted_, map_ in built["queries"]:
                for d, s in map_:
                    shown[(q, d)] = s
            final, hollow = {}, set()
            for pair, xs in by.items():
                ok = [x for x in xs if x[4] == "ok"]
                can = [x for x in xs if x[4] == "cancelled"]
                dup = [x for x in xs if x[4] == "dup"]
                if len(xs) > 1 or can:
                    scn["_nt"] = True
                ctx.probes["first deliveries"] += len(ok)
                ctx.probes["repeated deliveries refused"] += len(dup)
                ctx.probes["cancelled deliveries"] += len(can)
                if can:
                    hollow.add(pair[0])
                val = (lambda x: x[5][4]) if k[0] == "t" else (lambda x: hx(x[5][4]))
                if len(ok) > 1:
                    raise Violation("twice", "the pair %s was accepted twice by builder %s: %s and %s" % (pair, k, short(ok[0][5]), short(ok[1][5])))
                if ok:
                    first = ok[0]
                    for x in dup:
                        if x[:4] < first[:4] if x[2] == first[2] else x[0] < first[0]:
                            raise Violation("refused-first", "%s was refused as a duplicate before %s was accepted" % (short(x[5]), short(first[5])))
                    eff = [first]
                else:
                    if not can:
                        raise Violation("refused-first", "every delivery of %s was refused as a duplicate" % (pair,))
                    if pair not in shown:
                        if dup:
                            raise Violation("lost", "%s was refused as a duplicate, but the pair is not in the store" % short(dup[0][5]))
                        continue
                    eff = [x for x in can if all(d[0] >= x[0] for d in dup)]
                    if shown[pair] not in [val(x) for x in eff]:
                        raise Violation("score", "the pair %s has score %s, delivered were %s" % (pair, shown[pair], [val(x) for x in xs]))
                    eff = [x for x in eff if val(x) == shown[pair]]
                final[pair] = eff[0][5][4]
            want = expect(k[0], final)
            got = {x: built[x] for x in ("records", "queries", "n_queries", "n_docs")}
            empty = [q for q, a, b in got["queries"] if not a and not b]
            if empty and all(q in hollow for q in empty):
                got["queries"] = [x for x in got["queries"] if x[0] not in empty]
                got["n_queries"] -= len(empty)
            for f in ("n_docs", "n_queries", "queries", "records"):
                if got[f] != want[f]:
                    raise Violation("store", "builder %s: %s of the store are %s instead of %s" % (k, f, short(got[f], 700), short(want[f], 700)))
            for pr, g in zip(scn["probe"], built["probe"]):
                w = final.get(tuple(pr))
                w = w if w is None or k[0] == "t" else hx(w)
                if g != w:
                    raise Violation("lookup", "builder %s: the score of %s is %s instead of %s" % (k, pr, g, w))

    def bulk(self, op, got):
        seen = {}
        dup = False
        for q, d, s in op[2]:
            if (q, d) in seen:
                dup = True
            seen.setdefault((q, d), s)
        if dup:
            if not isinstance(got, dict) or got.get("err") != "DuplicateEntry":
                raise Violation("bulk", "a bulk construction with a repeated pair gives %s" % short(got))
            return
        want = expect("t" if op[1] == "true" else "p", seen)
        if not isinstance(got, list):
            raise Violation("bulk", "a bulk construction of distinct pairs fails: %s" % short(got))
        for f in want:
            if got[0][f] != want[f]:
                raise Violation("bulk", "%s of a store are %s instead of %s" % (f, short(got[0][f], 700), short(want[f], 700)))
        if got[1] != want["records"]:
            raise Violation("bulk", "the exported records are %s instead of %s" % (short(got[1], 700), short(want["records"], 700)))

    def check(self, scn, ctx):
        for c in scn["confs"]:
            out, r = drive(ctx, dict(world(scn), threads=scn["threads"], probe=scn["probe"]), c)
            self.judge(scn, out, ctx)

    def nontrivial(self, scn, ctx):
        return scn.get("_nt", False)
