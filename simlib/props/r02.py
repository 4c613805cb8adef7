"""R02: unseeded randomised tests draw a fresh state and report one that replays."""
import json
from ..core import Property, Violation
from .. import gen as G, tools as T, report
from ..drive import Shared, drive, world, ALONE, short, plain
from .r01 import mats, state
from .t02 import bits


class P(Shared):
    id = "R02"
    technique = "deterministic simulation of caller threads under controlled and faulty entropy, replay of every reported state in a fresh process"
    quick, thorough = 2500, 60000
    uses_tools = True
    rule = ("a scenario is up to 3 matrices, 1 to 4 threads of unseeded tests (own, shared and default testers, mixed with seeded, failing and cancelled ones) run under 2 entropy streams, with short, "
            "interrupted or unavailable getrandom; every reported state is replayed; or one comparison of tables with the compare tool under 5 entropy streams; non-trivial: at least two fresh states drawn")

    def op(self, rng, s, budget):
        M = s["_m"]
        i = rng.randrange(len(M))
        X = M[i]
        m, n = min(len(r) for r in X), len(X)
        B = min(rng.choice([0, 1, 2, 10, 100, 1000]), max(1, budget // (n * m)))
        a, b = rng.randrange(m), rng.randrange(m)
        k = rng.choice(["bootx", "rthsdx", "bootx", "rthsdx", "boot", "rthsd", "bootseed", "rthsdseed", "tb", "tr", "boot0", "rthsd0"])
        if k == "bootx":
            return [k, i, a, b, B]
        if k == "rthsdx":
            return [k, i, len(X[0]), B]
        if k == "boot":
            return [k, i, a, b, B, None]
        if k == "rthsd":
            return [k, i, len(X[0]), B, None]
        if k == "bootseed":
            return ["boot", i, a, b, B, state(rng)]
        if k == "rthsdseed":
            return ["rthsd", i, len(X[0]), B, state(rng)]
        if k == "tb" and s["boot"]:
            return ["boot", i, a, b, "t%d" % rng.randrange(len(s["boot"]))]
        if k == "tr" and s["rthsd"]:
            return ["rthsd", i, len(X[0]), "t%d" % rng.randrange(len(s["rthsd"]))]
        if n * m <= 24 and rng.random() < 0.3:
            return ["boot0", i, a, b] if k == "boot0" else ["rthsd0", i, len(X[0])]
        return ["bootx", i, a, b, B]

    def tool(self, rng):
        """Tables of systems alike, and the same scores once more under another name: p-values that vary much with the state."""
        m, n = rng.choice([2, 2, 3, 4]), rng.choice([8, 12, 20, 40])
        X = [[rng.random() for _ in range(m)] for _ in range(n)]
        names = rng.sample(["ap", "rr", "ndcg@10", "f1", "recall"], rng.choice([2, 2, 3]))
        return {"tool": True, "names": names, "m": m, "mode": rng.choice(["raw", "pretty"]), "flags": rng.random() < 0.5,
                "files": [T.pack(G.csv_text(["query_id"] + names, ["q%d" % t for t in range(n)], [[X[t][j] for t in range(n)] for _ in names], range(n), ",")) for j in range(m)],
                "confs": [dict(G.schedule(rng), **({"rnd_enosys": 1} if rng.random() < 0.1 else {})) for _ in range(5)]}

    def check_tool(self, scn, ctx):
        paths = ["s%d.csv" % j for j in range(scn["m"])]
        for p, f in zip(paths, scn["files"]):
            ctx.box.put(p, T.unpack(f))
        seen = {}
        for c in scn["confs"]:
            r = ctx.run("compare", ["-i"] + paths + ["-p", scn["mode"]] + (["--n-resamples", "10000", "--n-iters", "10000"] if scn["flags"] else []), c)
            if r.rc:
                raise Violation("fails", T.fail_text("compare", r))
            metric = None
            for t, rows in report.parse(r.out, scn["mode"]):
                if t in scn["names"]:
                    metric = t
                elif "Bootstrap" in t or "Fisher" in t:
                    for x in rows[1:]:
                        seen.setdefault("bootstrap" if "Bootstrap" in t else "Fisher", {}).setdefault(x[0], []).append((float(x[1]),))
                elif "randomized Tukey" in t:
                    seen.setdefault("Tukey HSD", {}).setdefault(metric, []).append(tuple(float(v) for j, x in enumerate(rows[1:]) for v in x[2 + j:]))
        for test, by in seen.items():
            K = len(scn["confs"])
            if sorted(by) != sorted(scn["names"]) or any(len(v) != K for v in by.values()):
                raise Violation("report", "the %s test has no p-value for some metric" % test)
            ok = [k for k in scn["names"] if any(all(0.05 < v[j] < 0.95 for v in by[k]) for j in range(len(by[k][0])))]
            for k in ok:
                if len(set(by[k])) == 1:
                    raise Violation("entropy-ignored", "compare reports the p-values %s of the %s test on %s under each of %d entropy streams" % (by[k][0], test, k, K))
                ctx.probes["p-values of compare that vary with entropy"] += 1
            for k in ok[1:]:
                if by[k] == by[ok[0]]:
                    raise Violation("repeated-state", "compare reports the same p-values %s in the %s test on %s and on %s, which hold the same scores, under %d entropy streams" % (by[k], test, ok[0], k, K))
        scn["_busy"] = 2

    def gen(self, rng, ctx, i, tier):
        if rng.random() < 0.05:
            return self.tool(rng)
        many = rng.random() < 0.25
        M = mats(rng)
        s = {"_m": M, "boot": [[rng.choice([1, 10, 50]), None if rng.random() < 0.8 else state(rng)] for _ in range(rng.randint(0, 2))],
             "rthsd": [[rng.choice([len(X[0]) for X in M]), rng.choice([1, 10, 50]), None if rng.random() < 0.8 else state(rng)] for _ in range(rng.randint(0, 2))]}
        if many:
            # many cheap draws: what a state drawn from too few bits, or kept, would repeat
            M[:] = [[[0.0, 1.0], [0.5, 0.25], [1.0, 0.5]]]
            s["boot"], s["rthsd"] = [[1, None]], [[2, 1, None]]
            pool = [["boot", 0, 0, 1, 1, None], ["rthsd", 0, 2, 1, None], ["boot", 0, 0, 1, "t0"], ["rthsd", 0, 2, "t0"]]
            threads = [[rng.choice(pool) for _ in range(rng.choice([100, 200, 400]))] for _ in range(rng.randint(1, 4))]
        else:
            pool = [self.op(rng, s, 3000) for _ in range(rng.randint(2, 7))]

            def pick():
                o = rng.choice(pool)
                return {"op": o, "fuse": int(10 ** rng.uniform(0, 1.5))} if rng.random() < 0.12 else o
            threads = [[pick() for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 4))]
        scn = {"key": "String", "stores": [], "matrices": [bits(X) for X in M], "boot": s["boot"], "rthsd": s["rthsd"], "threads": threads,
               "after": [rng.choice(pool) for _ in range(rng.randint(0, 3))], "confs": self.confs(rng, 2, nblocks=not many)}
        for c in scn["confs"]:
            r = rng.random()
            if r < 0.2:
                c["rnd_enosys"] = 1
            elif r < 0.5:
                c["p_rnd_short"] = int(G.U * rng.choice([0.2, 0.9]))
                c["p_rnd_eintr"] = int(G.U * rng.choice([0.1, 0.6]))
                c["io_seed"] = rng.getrandbits(40)
        return scn

    def parts(self, scn, op):
        """(test, matrix, [i, j], n, state) of a single test."""
        if op[0] == "boot":
            n, s = (scn["boot"][int(op[4][1:])] if isinstance(op[4], str) else (op[4], op[5]))
            return ("boot", op[1], op[2:4], n, s)
        if op[0] == "rthsd":
            m, n, s = (scn["rthsd"][int(op[3][1:])] if isinstance(op[3], str) else (op[2], op[3], op[4]))
            return ("rthsd", op[1], [m], n, s)
        if op[0] in ("bootx", "boot0"):
            return ("boot", op[1], op[2:4], op[4] if op[0] == "bootx" else None, None)
        return ("rthsd", op[1], [op[2]], op[3] if op[0] == "rthsdx" else None, None)

    def check(self, scn, ctx):
        if scn.get("tool"):
            return self.check_tool(scn, ctx)
        runs = []
        scn["_busy"] = 0
        for c in scn["confs"]:
            out, r = drive(ctx, dict(world(scn), threads=scn["threads"], after=scn["after"]), c)
            fresh, replays = [], []
            for ops, res in zip(scn["threads"] + [scn["after"]], out["threads"] + [[[x] for x in out["after"]]]):
                for o, x in zip(ops, res):
                    op, got = plain(o), x[0]
                    if isinstance(got, dict) and "cancelled" in got and isinstance(o, dict):
                        ctx.probes["cancelled calls"] += 1
                        continue
                    if isinstance(got, dict) and "panic" in got:
                        raise Violation("panics", "%s panics: %s" % (short(op), got["panic"]))
                    kind, mat, args, n, s = self.parts(scn, op)
                    rs = got if isinstance(got, list) else [got]
                    if "err" in rs[0]:
                        ctx.probes["calls that fail"] += 1
                        continue
                    want_n = 10000 if n is None else max(n, 1)
                    for k, g in enumerate(rs):
                        if g["n"] != want_n:
                            raise Violation("settings", "%s reports %s repetitions instead of %d" % (short(op), g["n"], want_n))
                        if g != rs[0]:
                            raise Violation("not-replayed", "%s: the reported state %d gives %s on %s, not %s" % (short(op), rs[0]["state"], short(g), "a new tester" if k == 1 else "the same tester", short(rs[0])))
                    if s is not None:
                        if rs[0]["state"] != s:
                            raise Violation("state", "%s reports state %s instead of the given %d" % (short(op), rs[0]["state"], s))
                        continue
                    fresh.append((rs[0]["state"], op))
                    replays.append(([kind, mat] + args + [want_n, rs[0]["state"]], rs[0], op))
            seen = {}
            for st, op in fresh:
                if st in seen:
                    raise Violation("repeated-state", "two runs in one process, %s and %s, drew the same state %d (of %d runs)" % (short(seen[st]), short(op), st, len(fresh)))
                seen[st] = op
            # the reported states, given explicitly in another process with other entropy
            if replays:
                again = drive(ctx, dict(world(scn), threads=[[x[0] for x in replays]], inline=True), ALONE)[0]["threads"][0]
                for (o, first, op), (g, _, _) in zip(replays, again):
                    if g != first:
                        raise Violation("not-replayed", "%s reported %s, but %s gives %s in a fresh process" % (short(op), short(first), short(o), short(g)))
                ctx.probes["states replayed"] += len(replays)
            ctx.probes["fresh states"] += len(fresh)
            runs.append(seen)
            scn["_busy"] = max(scn["_busy"], len(fresh))
        for k, a in enumerate(runs):
            for b in runs[:k]:
                both = set(a) & set(b)
                if both:
                    raise Violation("entropy-ignored", "two processes with different entropy drew the same state %d (%s)" % (min(both), short(a[min(both)])))
        # the states of the two tests are drawn at two places: each place is judged by itself
        for kind in ("boot", "rthsd"):
            mine = [[x for x, op in seen.items() if op[0].startswith(kind)] for seen in runs]
            for xs in mine:
                xs = sorted(xs)
                for x, y in zip(xs, xs[1:]):
                    if y - x < 2**16:
                        raise Violation("related-states", "the states %d and %d of two %s runs in one process differ by %d" % (x, y, kind, y - x))
            every = sum(mine, [])
            if len(every) >= 64:
                o, n = 0, 2**64 - 1
                for x in every:
                    o |= x
                    n &= x
                if o != 2**64 - 1 or n != 0:
                    raise Violation("few-bits", "bits of %d fresh states of %s runs never differ: always zero %016x, always one %016x" % (len(every), kind, ~o & (2**64 - 1), n))
                ctx.probes["bit counts over 64 states or more"] += 1

    def nontrivial(self, scn, ctx):
        return scn.get("_busy", 0) >= 2

    def shrink(self, scn, ctx):
        if scn.get("tool"):
            return
        for k, t in enumerate(scn["threads"]):
            if len(t) > 20:
                yield from T.shrink_list(scn, ["threads", k], 1)
        if len(scn["confs"]) > 1:
            for c in scn["confs"]:
                yield T.edit(scn, ["confs"], [c])
            yield from T.shrink_list(scn, ["threads"], 1)
            for k in range(len(scn["threads"])):
                yield from T.shrink_list(scn, ["threads", k], 0)
            for k in range(len(scn["confs"])):
                yield from T.shrink_conf(scn, ["confs", k])
            return
        yield from super().shrink(scn, ctx)
