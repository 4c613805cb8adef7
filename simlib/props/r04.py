"""R04: bootstrap p-values converge to the exact bootstrap tail."""
import math
from fractions import Fraction
import numpy as np
from ..core import Violation
from .. import gen as G, ref as R
from ..drive import drive
from .r03 import Many, budget, spread, unpack
from .t02 import bits


class P(Many):
    id = "R04"
    technique = "deterministic simulation with controlled entropy, aggregated p-values against the exact bootstrap distribution"
    quick, thorough = 1100, 20000
    rule = "a scenario is one pair of samples (2 to 130 topics) tested repeatedly with fresh states, 30,000 to 120,000 resamples in all, or compared by the compare tool up to 20 times; non-trivial: the tail is strictly between 0 and 1"

    def gen(self, rng, ctx, i, tier):
        while True:
            n = self.sizes(rng) if rng.random() < 0.9 else 2
            X = G.matrix(rng, n, 2)
            r = rng.random()
            if r < 0.15:
                X[rng.randrange(n)][rng.randrange(2)] += rng.choice([1, 4, 30])
            elif r < 0.3:
                X = [[a, a + rng.choice([0, 0.25, 0.5])] for a, b in X]
            elif r < 0.45:
                X = [[a, a + rng.choice([0.25, 0.5, -0.125])] for a, b in X]
            elif r < 0.5:
                k = n // 2 * 2
                X = [[a, a + (0.25 if t % 2 else -0.25)] for t, (a, b) in enumerate(X[:k])] or X
            if rng.random() < 0.4:
                # a mean without rounding, so that resamples of equal values are decided strictly
                d = [Fraction(b) - Fraction(a) for a, b in X]
                e = float(sum(d) - round(sum(d) * 4 / len(d)) * Fraction(len(d), 4))
                X[0][1] -= e
            if rng.random() < 0.15:
                X = self.exact(rng)
            d = np.array([b - a for a, b in X])
            if len(X) >= 2 and d.max() - d.min() > 1e-6 * (1 + np.abs(np.array(X)).max()):
                break
        B, count = budget(rng, 2 * n, tier == "quick")
        scn = {"X": X, "B": B, "count": count, "swap": rng.random() < 0.5, "conf": self.conf(rng)}
        t = self.tool(rng, X, False) if rng.random() < 0.06 else None
        if t:
            scn.update(tool=t, B=t["B"], count=t["count"], swap=False)
        return scn

    def values(self, scn, ctx):
        """The p-values that the compare tool prints."""
        reps, nm = self.from_tool(scn, ctx, scn["X"])
        A = np.array([float(r[1]) for rep in reps for t, rows in rep if "Bootstrap" in t for r in rows[1:]])
        if len(A) != scn["count"] * nm:
            raise Violation("report", "compare does not print the p-values of %d runs" % scn["count"])
        K = np.round(A * scn["B"])
        if (np.abs(A - K / scn["B"]) > 0.500001e-4).any():
            raise Violation("multiple", "a p-value that compare prints is not a multiple of 1/%d" % scn["B"])
        return K / scn["B"]

    def exact(self, rng):
        """Differences whose t-statistics come without rounding, and tie: equal values are then decided strictly."""
        n = rng.choice([2, 3, 4, 4, 5, 6])
        L = math.lcm(*range(1, n + 1))
        for _ in range(60):
            k = [rng.randint(-6, 6) for _ in range(n)]
            k[0] -= sum(k) % n
            if rng.random() < 0.3:
                k[1] -= sum(k)
            d = [v * L / 64 for v in k]
            if max(k) > min(k):
                lo, hi, const, sure = R.boot_exact(d, [0.0] * n)
                if sure > 0.005:
                    break
        base = [rng.randint(0, 8) / 8 for _ in range(n)]
        return [[b, b + v] for b, v in zip(base, d)]

    def check(self, scn, ctx):
        X, B, count = scn["X"], scn["B"], scn["count"]
        i, j = (1, 0) if scn["swap"] else (0, 1)
        if scn.get("tool"):
            A = self.values(scn, ctx)
            count = len(A)
        else:
            out, r = drive(ctx, {"matrices": [bits(X)], "threads": [[["bootmany", 0, i, j, B, count]]], "inline": True}, scn["conf"], 300)
            res = out["threads"][0][0][0]
            if not isinstance(res, str):
                raise Violation("fails", "the test of %r fails: %s" % (X, res))
            A = unpack(res)
        if len(A) != count or not ((A >= 0) & (A <= 1)).all():
            raise Violation("range", "a p-value outside [0, 1]")
        K = A * B
        if (np.abs(K - np.round(K)) > 1e-6).any():
            raise Violation("multiple", "a p-value is not a multiple of 1/%d: %r" % (B, A[np.abs(K - np.round(K)) > 1e-6][0]))
        K = np.round(K)
        if scn.get("tool"):
            X = [X[q] for q in scn["tool"]["orders"][0] if q < len(X)]
        x, y = [t[i] for t in X], [t[j] for t in X]
        e = R.boot_exact(x, y)
        N = None
        if e is None:
            N = int(max(30000, min(200000, 8000000 // len(x))))
            e = R.boot_mc(x, y, N, 5)
            ctx.probes["tails estimated"] += 1
        else:
            ctx.probes["tails enumerated"] += 1
        lo, hi, const, sure = e
        if const > 0:
            ctx.probes["resamples without variance"] += 1
        if sure > 0:
            ctx.probes["samples with exact ties"] += 1
        if R.exact_sums([a - b for a, b in zip(x, y)]):
            ctx.probes["samples without rounding"] += 1
        scn["_nt"] = bool(0 < lo and hi < 1)
        k, total = int(K.sum()), B * count
        if not R.binom_ok(k, total, lo, hi, N):
            raise Violation("biased", "p = %.6f over %d runs of %d resamples, but the tail is %.6f (ties by rounding: %s); resamples without variance: %.4f" %
                            (k / total, count, B, hi, "none" if lo == hi else "from %.6f" % lo, const))
        w = spread(K, B)
        if w:
            raise Violation("spread", w)

    def known(self, ctx):
        """Resamples whose values are all equal count as extreme when the rounded variance is not exactly zero."""
        d = [0.1, 0.1, 0.1, 0.1, 0.1, 0.7]
        ctx.box.clean()
        out, r = drive(ctx, {"matrices": [bits([[v, 0.0] for v in d])], "threads": [[["bootmany", 0, 0, 1, 10000, 1]]], "inline": True}, {"entropy_seed": 1, "manual": 1})
        res = out["threads"][0][0][0]
        if isinstance(res, str):
            p = float(unpack(res)[0])
            if p > 0.1:
                yield "R04-rounded-zero", "the p-value of the differences %s is %.4f instead of about 0.0090: resamples that draw 0.1 six times have no variance, but a rounded one of about 1e-34, and count as extreme" % (d, p)

    def nontrivial(self, scn, ctx):
        return scn.get("_nt", False)
