"""T02: deterministic statistics do not depend on schedule, history or earlier errors."""
from .. import gen as G
from ..drive import Shared

ALPHAS = [0.05, 0.05, 0.01, 0.1, 0.5, 0.999, 1e-6, 0.0, 1.0, -0.1, 2.0]


def bits(X):
    return [[G.fbits(float(v)) for v in r] for r in X]


class P(Shared):
    id = "T02"
    technique = "deterministic simulation of caller threads with cancellation injection, refinement against the same call alone in a fresh process"
    quick, thorough = 5000, 90000
    rule = "a scenario is up to 4 sample matrices, 2 to 5 threads of 1 to 7 calls each (t-test, ANOVA, Tukey effect sizes, map pairing, metric names and their printing into the caller's writer; failing ones; ones cancelled inside the caller's iterator or keys), under 3 schedules; non-trivial: at least one context switch"

    def mats(self, rng):
        out = []
        for _ in range(rng.randint(1, 4)):
            m, n = rng.choice([2, 2, 3, 4, 6]), rng.choice([1, 2, 2, 3, 5, 8, 20, 60])
            if rng.random() < 0.03:
                m, n = rng.choice([(2, 300), (2, 1100), (3, 300), (12, 20), (40, 8)])
            X = G.matrix(rng, n, m)
            r = rng.random()
            if r < 0.08:
                X = [[X[0][0]] * m for _ in X]
            elif r < 0.14:
                X = [list(X[0]) for _ in X]
            elif r < 0.2:
                X[rng.randrange(n)] = X[0][:-1] if rng.random() < 0.5 else X[0] + [1.0]
            out.append(X)
        # twins: other data that a shared cache, keyed by a part of it, would confuse with the first
        for _ in range(rng.choice([0, 1, 1, 2])):
            X = [list(r) for r in rng.choice(out)]
            how = rng.choice(["one", "one", "middle", "rows", "cols", "scale", "shift", "all", "cut"])
            if how == "one":
                r = X[rng.randrange(len(X))]
                r[rng.randrange(len(r))] += rng.choice([0.25, -0.125, 1.0, 1e-9])
            elif how == "middle":
                for r in X[1:-1]:
                    rng.shuffle(r)
            elif how == "rows":
                rng.shuffle(X)
            elif how == "cols":
                X = [r[1:] + r[:1] for r in X]
            elif how == "scale":
                X = [[v * 4 for v in r] for r in X]
            elif how == "shift":
                X = [[v + 2 for v in r] for r in X]
            elif how == "all":
                X = [[rng.randint(0, 64) / 64 for _ in r] for r in X]
            else:
                X = X[:-1] or X
            out.append(X)
        return out

    def map(self, rng, ids, vals):
        return [[k, G.fbits(rng.choice(vals))] for k in ids]

    def op(self, rng, mats):
        i = rng.randrange(len(mats))
        X = mats[i]
        m = min(len(r) for r in X)
        k = rng.choice(["ttest", "ttest", "anova", "anova", "tukey", "tukey", "pairs", "tuples", "metric", "metric", "print"])
        if k == "ttest":
            a, b = rng.randrange(m), rng.randrange(m)
            return [k, i, a, b, G.fbits(rng.choice(ALPHAS))]
        if k == "anova":
            return [k, i, len(X[0]) if rng.random() < 0.85 else rng.choice([0, 1, 2, 3]), G.fbits(rng.choice(ALPHAS))]
        if k == "tukey":
            return [k, i, len(X[0]) if rng.random() < 0.85 else rng.choice([0, 1, 2, 3])]
        if k == "metric":
            return [k, G.metric_any(rng)]
        if k == "print":
            return [k, G.metric_any(rng), rng.choice([1000, 1000, 1000, 0, 3, 8]), rng.randrange(4)]
        ids = G.ids(rng, rng.randint(0, 12) if rng.random() < 0.95 else rng.choice([70, 300]))
        ids2 = ids if rng.random() < 0.7 else [x for x in ids if rng.random() < 0.7] + (["extra"] if rng.random() < 0.4 else [])
        vals = [rng.random() for _ in range(8)]
        if k == "pairs":
            return [k, self.map(rng, ids, vals), self.map(rng, rng.sample(ids2, len(ids2)), vals)]
        return [k, [self.map(rng, ids, vals)] + [self.map(rng, rng.sample(ids2, len(ids2)), vals) for _ in range(rng.randint(0, 3))]]

    def gen(self, rng, ctx, i, tier):
        mats = self.mats(rng)
        pool = [self.op(rng, mats) for _ in range(rng.randint(2, 8))]
        # the same calls on other data, and on data that differs in a detail
        for o in rng.sample(pool, min(len(pool), 4)):
            if o[0] in ("ttest", "anova", "tukey"):
                j = rng.randrange(len(mats))
                if o[0] != "ttest" or max(o[2], o[3]) < min(len(r) for r in mats[j]):
                    pool.append([o[0], j] + o[2:])
            elif o[0] == "metric":
                b = o[1].split("@")[0]
                pool.append(["metric", rng.choice([b, b + "@1", b + "@2", b + "@10", o[1] + "0", o[1][:-1], "n" + o[1]])])
            elif o[0] == "pairs" and o[1]:
                pool.append(["pairs", [[k, G.fbits(rng.random())] for k, _ in o[1]], o[2]])
            elif o[0] == "tuples" and o[1][0]:
                pool.append(["tuples", [[[k, G.fbits(rng.random())] for k, _ in o[1][0]]] + o[1][1:]])
        key = rng.choice(["sim", "sim", "String"])

        def pick():
            o = rng.choice(pool)
            if o[0] == "print":
                return self.disturb(rng, o, [x for x in pool if x[0] == "print"] if rng.random() < 0.5 else pool, 0.3)
            return self.disturb(rng, o, pool, 2) if o[0] != "metric" else o
        return {"key": key, "stores": [], "matrices": [bits(X) for X in mats], "threads": [[pick() for _ in range(rng.randint(1, 7))] for _ in range(rng.randint(2, 5))],
                "after": [rng.choice(pool) for _ in range(rng.randint(0, 3))], "confs": self.confs(rng, 3)}
