"""T01: concurrent use of shared stores gives every caller the sequential result."""
from .. import gen as G
from ..drive import Shared


class P(Shared):
    id = "T01"
    technique = "deterministic simulation of caller threads with cancellation injection, refinement against the same call alone in a fresh process"
    quick, thorough = 3000, 60000
    rule = "a scenario is 1 to 3 pairs of stores, 2 to 5 threads of 1 to 6 calls each (evaluations with any metric, own short-lived stores, lookups, dumps; failing ones; ones cancelled inside the caller's code), under 3 schedules; non-trivial: at least one context switch"

    def op(self, rng, stores):
        i = rng.randrange(len(stores))
        T, P = stores[i]
        r = rng.random()
        if r < 0.55:
            return ["eval", i, G.metric_any(rng)]
        if r < 0.62:
            return ["own", i, G.metric_any(rng), rng.randrange(4), rng.random() < 0.5]
        if r < 0.72:
            return ["xeval", i, G.metric_any(rng), rng.randrange(len(stores))]
        if r < 0.9:
            q = rng.choice(T + P)[0] if rng.random() < 0.9 else "absent"
            d = rng.choice(T + P)[1] if rng.random() < 0.9 else "absent"
            return ["look", i, q, d]
        return ["dump", i]

    def churn(self, rng):
        """Callers that use one pair of stores after another: what sits where another sat before."""
        st = [G.store(rng, rng.choice(["small", "small", "mid"]), nq=rng.choice([1, 1, 2, None]))]
        m = G.metric_any(rng)
        ms = [m] if rng.random() < 0.6 else [m, G.metric_any(rng), m.split("@")[0] + "@2" if "@" in m else m]
        op = lambda: ["own", 0, rng.choice(ms), rng.randrange(4), rng.random() < 0.2] if rng.random() < 0.95 else ["eval", 0, rng.choice(ms)]
        return {"key": rng.choice(["sim", "String"]), "stores": st, "matrices": [], "threads": [[op() for _ in range(rng.randint(3, 10))] for _ in range(rng.randint(1, 3))],
                "after": [op() for _ in range(rng.randint(0, 2))], "confs": self.confs(rng, 2)}

    @staticmethod
    def twin(rng, base):
        """The same keys with other relevances or scores: what a shared cache would confuse."""
        T, P = [list(x) for x in base[0]], [list(x) for x in base[1]]
        k = rng.choice(["all", "all", "permute", "permute", "one", "swap", "rename"])
        if k == "all":
            T = [[q, d, rng.choice([0, 1, 2, 3])] for q, d, s in base[0]]
            P = [[q, d, G.fbits(float(rng.randint(0, 5)))] for q, d, s in base[1]]
        elif k == "permute":        # the same grades for other documents, or the same scores
            A = T if rng.random() < 0.7 else P
            for q in {x[0] for x in A}:
                at = [i for i, x in enumerate(A) if x[0] == q]
                v = [A[i][2] for i in at]
                rng.shuffle(v)
                for i, s in zip(at, v):
                    A[i][2] = s
        elif k == "one":
            x = rng.choice(T)
            x[2] = rng.choice([g for g in (0, 1, 2, 3) if g != x[2]])
        elif k == "swap":           # two scores change places
            x = rng.choice(P)
            y = rng.choice([z for z in P if z[0] == x[0]])
            x[2], y[2] = y[2], x[2]
        else:
            x = rng.choice(T)
            d = rng.choice(T + P)[1]
            if [x[0], d] not in [z[:2] for z in T]:
                x[1] = d
        return [T, P]

    def gen(self, rng, ctx, i, tier):
        if rng.random() < 0.2:
            return self.churn(rng)
        n = rng.choice([1, 1, 2, 2, 3])
        deep = rng.random() < 0.08
        base = G.store(rng, "large", nq=rng.choice([1, 1, 2])) if deep else G.store(rng, rng.choice(["small", "small", "mid"]))
        stores = [base]
        for _ in range(n - 1):
            if rng.random() < 0.6:
                stores.append(self.twin(rng, base))
            else:
                stores.append(G.store(rng, "small"))
        pool = [self.op(rng, stores) for _ in range(rng.randint(2, 9))]
        if n > 1 and rng.random() < 0.5:    # the same question to all of them
            m = G.metric_any(rng)
            pool = pool[:rng.randint(0, 4)] + [["eval", j, m] for j in range(n)]
        if deep:
            # what is set up for short rankings must serve long ones
            for m in rng.sample([m for m in G.all_metrics(rng) if "@" not in m], 2):
                pool += [["eval", 0, m], ["eval", 0, m + "@" + rng.choice(["1", "5", "100"])]] if m not in ("r_precision", "bpref") else [["eval", 0, m]]
        # the same metric at other cut-offs
        if rng.random() < 0.3:
            # short-lived stores that take each other's place in memory
            m = G.metric_any(rng)
            pool += [["own", rng.randrange(n), m, rng.randrange(4), rng.random() < 0.3] for _ in range(rng.randint(2, 5))]
        pool += [["eval", o[1], o[2].split("@")[0] + rng.choice(["", "@1", "@2", "@3"])] for o in pool if o[0] == "eval" and "@" in o[2]][:2]
        key = rng.choice(["sim", "sim", "String"])

        def pick():
            o = rng.choice(pool)
            return self.disturb(rng, o, pool, 3) if key == "sim" else o
        return {"key": key, "stores": stores, "matrices": [], "threads": [[pick() for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(2, 5))],
                "after": [rng.choice(pool) for _ in range(rng.randint(0, 3))], "confs": self.confs(rng, 3)}
