"""R01: a fixed random state makes the randomised tests reproducible bit for bit."""
from .. import gen as G
from ..drive import Shared
from .t02 import bits

STATES = [0, 1, 2, 42, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1]


def state(rng):
    return rng.choice(STATES) if rng.random() < 0.5 else rng.getrandbits(rng.choice([8, 16, 32, 48, 63, 64]))


def mats(rng, k=None, big=False):
    out = []
    for _ in range(k or rng.randint(1, 3)):
        m = rng.choice([2, 2, 2, 3, 3, 4, 5, 8])
        n = rng.choice([2, 3, 4, 5, 8, 12, 20, 33] + ([64, 65, 100, 300] if big else []))
        X = G.matrix(rng, n, m)
        r = rng.random()
        if r < 0.06:
            X = [[X[0][0]] * m for _ in X]
        elif r < 0.12:
            X[rng.randrange(n)] = X[0][:-1] if rng.random() < 0.5 else X[0] + [1.0]
        elif r < 0.16:
            X = X[:1]
        out.append(X)
    return out


def iters(rng, work, budget):
    """A number of repetitions of about work basic steps each."""
    top = max(1, budget // max(1, work))
    r = rng.random()
    if r < 0.1:
        return rng.choice([0, 1])
    if r < 0.2:
        return None if top >= 10000 else min(top, 100)
    return min(top, int(10 ** rng.uniform(0, 4)))


class P(Shared):
    id = "R01"
    technique = "deterministic simulation of caller threads under entropy, clock and cancellation faults, refinement against the same call alone in a fresh process"
    quick, thorough = 3500, 60000
    rule = ("a scenario is up to 3 matrices, shared and own testers, 2 to 4 threads of 1 to 5 calls each (bootstrap and randomised Tukey HSD tests with a fixed state, mixed with unseeded, failing and "
            "cancelled ones), under 3 schedules with other entropy, clocks and CPU counts; non-trivial: at least one context switch")

    def op(self, rng, s, budget):
        mats = s["_m"]
        i = rng.randrange(len(mats))
        X = mats[i]
        m, n = min(len(r) for r in X), len(X)
        if rng.random() < 0.5:
            a, b = rng.randrange(m), rng.randrange(m)
            if s["boot"] and rng.random() < 0.5:
                return ["boot", i, a, b, "t%d" % rng.randrange(len(s["boot"]))]
            return ["boot", i, a, b, iters(rng, n, budget), state(rng) if rng.random() < 0.8 else None]
        if s["rthsd"] and rng.random() < 0.5:
            return ["rthsd", i, len(X[0]), "t%d" % rng.randrange(len(s["rthsd"]))]
        return ["rthsd", i, len(X[0]) if rng.random() < 0.9 else rng.choice([0, 1, 2, 3]), iters(rng, n * len(X[0]), budget), state(rng) if rng.random() < 0.8 else None]

    def gen(self, rng, ctx, i, tier):
        fine = rng.random() < 0.6
        budget = 4000 if fine else rng.choice([40000, 40000, 400000])
        M = mats(rng, big=not fine)
        work = max(len(X) * len(X[0]) for X in M)
        s = {"_m": M}
        s["boot"] = [[iters(rng, work, budget), state(rng) if rng.random() < 0.85 else None] for _ in range(rng.randint(0, 2))]
        s["rthsd"] = [[rng.choice([len(X[0]) for X in M]), iters(rng, work, budget), state(rng) if rng.random() < 0.85 else None] for _ in range(rng.randint(0, 2))]
        pool = [self.op(rng, s, budget) for _ in range(rng.randint(2, 6))]

        def pick():
            return self.disturb(rng, rng.choice(pool), pool, 1.7, 0.2)
        scn = {"key": "String", "stores": [], "matrices": [bits(X) for X in M], "boot": s["boot"], "rthsd": s["rthsd"],
               "threads": [[pick() for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(2, 4))],
               "after": [rng.choice(pool) for _ in range(rng.randint(0, 3))], "confs": self.confs(rng, 3, nblocks=fine)}
        for c in scn["confs"]:
            r = rng.random()
            if r < 0.15:
                c["rnd_enosys"] = 1
            elif r < 0.3:
                c["p_rnd_eintr"] = int(G.U * 0.5)
        self._scn = scn
        return scn

    def check(self, scn, ctx):
        self._scn = scn
        super().check(scn, ctx)

    def seeded(self, op):
        s = self._scn
        if op[0] == "boot":
            return s["boot"][int(op[4][1:])][1] if isinstance(op[4], str) else op[5]
        return s["rthsd"][int(op[3][1:])][2] if isinstance(op[3], str) else op[4]

    def same(self, op, got, truth):
        if self.seeded(op) is not None:
            return got == truth
        # unseeded: the same kind of answer for the same settings
        if not isinstance(got, dict) or not isinstance(truth, dict) or set(got) != set(truth):
            return False
        return all(got[k] == truth[k] for k in got if k not in ("p", "state"))
