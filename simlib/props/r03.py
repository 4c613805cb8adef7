"""R03: randomised Tukey HSD p-values converge to the exact permutation tail."""
import math
import numpy as np
from scipy import stats as st
from ..core import Property, Violation
from .. import gen as G, ref as R, report, tools as T
from ..drive import drive
from . import c03
from .t02 import bits


def unpack(x):
    return np.frombuffer(bytes.fromhex(x), "<f8")


def spread(ks, B):
    """Counts of independent runs of B repetitions: is their dispersion, and the dependence of one on the next, that of
    independent binomial draws?  Returns a text if not."""
    ks = np.asarray(ks, float)
    n = len(ks)
    p = ks.mean() / B
    v = B * p * (1 - p)
    g = int(np.gcd.reduce(ks.astype(int)))
    if g > 1 and v > g * g and n * math.log10(g) > 14:
        return "%d counts out of %d repetitions are all multiples of %d" % (n, B, g)
    if n < 10 or v < (5 if n >= 40 else 50):
        return None
    x = ((ks - ks.mean()) ** 2).sum() / v
    if st.chi2.sf(x, n - 1) < 1e-13 or st.chi2.cdf(x, n - 1) < 1e-13:
        return "the variance of %d p-values is %.4g of that of %d independent repetitions" % (n, x / (n - 1), B)
    z = (ks - ks.mean()) / math.sqrt(v)
    for lag in (1, 2):
        a = (z[lag:] * z[:-lag]).sum() / math.sqrt(n)
        if abs(a) > 8:
            return "successive p-values are correlated (z = %.1f)" % a
    return None


def budget(rng, work, quick):
    total = rng.choice([30000, 60000, 120000]) * (1 if quick else 4)
    total = max(4000, min(total, 40000000 // work))
    B = rng.choice([1, 2, 3, 7, 20, 50, 100, 300, 1000, 1001, 10000, 12345])
    return min(B, total), max(2, total // B)


class Many(Property):
    components = {"real": "elinor library, rand, statrs; the elinor-compare binary in some scenarios", "simulated": "OS entropy (seeded, split, interrupted, unavailable), CPU count, clock", "stub": "the caller (driver)"}
    assumptions = ["a correct test fails a comparison with probability below 1e-12 (about 1e4 comparisons per quick run, and all runs are seeded)"]
    level_note = "statistical: repeated runs against exact tails (enumerated, or estimated where too many)"

    def conf(self, rng):
        c = {"sched_seed": 1, "entropy_seed": rng.getrandbits(48), "ncpu": rng.choice([1, 2, 3, 8]), "manual": 1}
        r = rng.random()
        if r < 0.15:
            c["rnd_enosys"] = 1
        elif r < 0.4:
            c["p_rnd_short"] = int(G.U * 0.5)
            c["p_rnd_eintr"] = int(G.U * 0.3)
        return c

    def tool(self, rng, X, fisher):
        """How the compare tool is asked for the p-values of X, in how many runs of how many repetitions; None if it cannot be."""
        if not c03.P.fine({"": np.asarray(X, float)}):
            return None
        B = rng.choice([1, 7, 50, 100, 1000, 1000, 3000, 10000, None])
        work = len(X) * len(X[0]) * (B or 10000)
        n = len(X)
        other = rng.choice([1, 20, 10000])
        return {"B": B or 10000, "count": max(2, min(20 if (B or 10000) >= 1000 else 12, 24000000 // work)), "mode": rng.choice(["raw", "pretty"]), "orders": [rng.sample(range(n), n) if rng.random() < 0.5 else list(range(n)) for _ in X[0]],
                "flags": [] if B is None else ["--n-iters", str(B), "--n-resamples", str(other)] if fisher else ["--n-resamples", str(B), "--n-iters", str(other)], "n": n, "two": rng.random() < 0.3}

    def from_tool(self, scn, ctx, X):
        """[(title, rows)] of the reports of several runs; the table holds the metric once or twice."""
        t = scn["tool"]
        n, m = len(X), len(X[0])
        names = ["ap", "rr"][:1 + t["two"]]
        for j in range(m):
            o = [q for q in t["orders"][j] if q < n] if j < len(t["orders"]) else range(n)
            ctx.box.put("s%d.csv" % j, G.csv_text(["query_id"] + names, ["q%d" % i for i in range(n)], [[r[j] for r in X]] * len(names), o, ","))
        reps = []
        for k in range(scn["count"]):
            c = dict(scn["conf"], entropy_seed=scn["conf"]["entropy_seed"] + k)
            r = ctx.run("compare", ["-i"] + ["s%d.csv" % j for j in range(m)] + ["-p", t["mode"]] + t["flags"], c)
            if r.rc:
                raise Violation("fails", T.fail_text("compare", r))
            reps.append(report.parse(r.out, t["mode"]))
        ctx.probes["runs of the compare tool"] += len(reps)
        return reps, len(names)

    def sizes(self, rng):
        return rng.choice([3, 4, 5, 6, 7, 8, 10, 15, 30, 65, 130])

    def shrink(self, scn, ctx):
        X = scn["X"]
        for s in T.shrink_list(scn, ["X"], 2):
            if not s.get("tool") or c03.P.fine({"": np.asarray(s["X"], float)}):
                yield s
        m = len(X[0])
        if m > 2 and not scn.get("tool"):
            for j in range(m):
                yield T.edit(scn, ["X"], [r[:j] + r[j + 1:] for r in X])
        yield from T.shrink_conf(scn, ["conf"])


class P(Many):
    id = "R03"
    technique = "deterministic simulation with controlled entropy, aggregated p-values against the exact permutation distribution"
    quick, thorough = 800, 20000
    rule = "a scenario is one matrix (2 to 6 systems, 1 to 130 topics) tested repeatedly with fresh states, 30,000 to 120,000 repetitions in all, or compared by the compare tool up to 20 times; non-trivial: some pair has a tail strictly between 0 and 1"

    def gen(self, rng, ctx, i, tier):
        m = rng.choice([2, 2, 3, 3, 4, 4, 5, 6])
        n = self.sizes(rng) if rng.random() < 0.9 else rng.choice([1, 2])
        X = G.matrix(rng, n, m)
        r = rng.random()
        if r < 0.12:
            # one topic decides much of the tail
            X[rng.randrange(n)][rng.randrange(m)] += rng.choice([1, 4, 30])
        elif r < 0.2:
            for t in X:
                t[1] = t[0]
        elif r < 0.3:
            # scores of one sign and offset
            X = [[v - 100 for v in t] for t in X]
        B, count = budget(rng, n * m, tier == "quick")
        scn = {"X": X, "B": B, "count": count, "conf": self.conf(rng)}
        t = self.tool(rng, X, True) if rng.random() < 0.06 else None
        if t:
            scn.update(tool=t, B=t["B"], count=t["count"])
        return scn

    def matrices(self, scn, ctx):
        """The matrices of p-values that the compare tool prints."""
        m = len(scn["X"][0])
        reps, nm = self.from_tool(scn, ctx, scn["X"])
        out = []
        for rep in reps:
            for t, rows in rep:
                if m == 2 and t.startswith("Fisher"):
                    out += [[[1, float(r[1])], [float(r[1]), 1]] for r in rows[1:]]
                elif m > 2 and t.startswith("p-values for randomized Tukey"):
                    out.append([[float(c) for c in r[1:]] for r in rows[1:]])
        A = np.array(out)
        if A.shape != (scn["count"] * nm, m, m):
            raise Violation("report", "compare does not print the p-values of %d runs on %d systems" % (scn["count"], m))
        # printed with four decimals
        K = np.round(A * scn["B"])
        if (np.abs(A - K / scn["B"]) > 0.500001e-4).any():
            raise Violation("multiple", "a p-value that compare prints is not a multiple of 1/%d" % scn["B"])
        return K / scn["B"]

    def check(self, scn, ctx):
        X, B, count = scn["X"], scn["B"], scn["count"]
        n, m = len(X), len(X[0])
        if scn.get("tool"):
            A = self.matrices(scn, ctx)
            count = len(A)
        else:
            out, r = drive(ctx, {"matrices": [bits(X)], "threads": [[["rthsdmany", 0, m, B, count]]], "inline": True}, scn["conf"], 300)
            res = out["threads"][0][0][0]
            if not isinstance(res, str):
                raise Violation("fails", "the test of a %d x %d matrix fails: %s" % (n, m, res))
            A = unpack(res).reshape(count, m, m)
        scn["_nt"] = False
        if not ((A >= 0) & (A <= 1)).all():
            raise Violation("range", "a p-value outside [0, 1] for %r with %d repetitions" % (X, B))
        if (A[:, range(m), range(m)] != 1).any():
            raise Violation("diagonal", "a p-value on the diagonal is not 1")
        if (A != A.transpose(0, 2, 1)).any():
            raise Violation("symmetry", "the matrix of p-values is not symmetric")
        K = A * B
        if (np.abs(K - np.round(K)) > 1e-6).any():
            raise Violation("multiple", "a p-value is not a multiple of 1/%d: %r" % (B, A[np.abs(K - np.round(K)) > 1e-6][0]))
        K = np.round(K)
        means = np.asarray(X, float).mean(axis=0)
        D = np.abs(means[:, None] - means[None, :])
        tol = 1e-9 * (1 + np.abs(np.asarray(X, float)).max())
        pairs = [(a, b) for a in range(m) for b in range(a + 1, m)]
        for a, b in pairs:
            for c, d in pairs:
                if D[a, b] > D[c, d] + tol and (K[:, a, b] > K[:, c, d]).any():
                    raise Violation("order", "systems %d and %d differ by %g, %d and %d by %g, but the larger difference has a larger p-value" % (a, b, D[a, b], c, d, D[c, d]))
        e = R.rthsd_exact(X, 150000)
        N = None
        if e is None:
            N = int(max(15000, min(100000, 8000000 // (n * m))))
            e = R.rthsd_mc(X, N, 5)
            ctx.probes["tails estimated"] += 1
        else:
            ctx.probes["tails enumerated"] += 1
        lo, hi = e
        total = B * count
        for a, b in pairs:
            if 0 < lo[a, b] < 1:
                scn["_nt"] = True
            k = int(K[:, a, b].sum())
            if not R.binom_ok(k, total, lo[a, b], hi[a, b], N):
                raise Violation("biased", "systems %d and %d: p = %.6f over %d runs of %d repetitions, but the tail is %s (ties by rounding: %s)" %
                                (a, b, k / total, count, B, "%.6f" % hi[a, b], "none" if lo[a, b] == hi[a, b] else "from %.6f" % lo[a, b]))
            w = spread(K[:, a, b], B)
            if w:
                raise Violation("spread", "systems %d and %d: %s" % (a, b, w))
        ctx.probes["pairs compared"] += len(pairs)

    def nontrivial(self, scn, ctx):
        return scn.get("_nt", False)
