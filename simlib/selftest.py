"""The simulator's own test: the same seed must give the same execution, in another process, at another worker count,
under another hash seed of the orchestrator.  Runs scenarios of every property and compares the fingerprints of all
simulated processes (exit status, output, steps, simulated time, event and switch hashes)."""
import hashlib, json, multiprocessing as mp, os, random, shutil, subprocess, sys, tempfile, time

from . import build as B, core

IDS = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(os.path.dirname(__file__), "props"))) if f[:1] != "_" and f.endswith(".py")]


def _one(a):
    pid, i, seed, base = a
    ctx = core._W.get("ctx")
    if ctx is None:
        ctx = core._W["ctx"] = core.Ctx(os.path.join(base, "p%d" % os.getpid()), B.build())
    prop = core.load(pid)
    ids = []
    real = ctx.box.run

    def run(*x, **y):
        r = real(*x, **y)
        ids.append(hashlib.sha256(repr(r.ident()).encode()).hexdigest())
        return r
    ctx.box.run = run
    ctx.reset()
    try:
        ctx.box.clean()
        scn = prop.gen(random.Random(seed), ctx, i, "quick")
        canon = json.dumps({k: scn[k] for k in scn if not k.startswith("_")}, sort_keys=True)
        v = core.run_scenario(prop, scn, ctx)
    finally:
        ctx.box.run = real
    return pid, i, len(ids), hashlib.sha256(canon.encode()).hexdigest(), hashlib.sha256("".join(ids).encode()).hexdigest(), ids, v.kind if v else None


def sweep(seed, count, jobs):
    base = tempfile.mkdtemp(prefix="sim-self-")
    work = [(pid, i, core.seed_of("self", pid, seed, i), base) for i in range(count) for pid in IDS]
    try:
        with mp.Pool(jobs) as pool:
            return sorted(x for x in pool.imap_unordered(_one, work, chunksize=1))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main(seed, count=40):
    if os.environ.get("SELFTEST_CHILD"):
        jobs, count = int(os.environ["SELFTEST_CHILD"]), int(os.environ["SELFTEST_COUNT"])
        for x in sweep(seed, count, jobs):
            print(json.dumps(x))
        return 0
    count = int(os.environ.get("SELFTEST_COUNT", count))
    B.build()
    t0 = time.time()
    res = []
    for jobs, hs in ((8, "0"), (3, "12345"), (7, "random")):
        env = dict(os.environ, SELFTEST_CHILD=str(jobs), SELFTEST_COUNT=str(count), PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, os.path.join(B.VERIF, "check.py"), "--determinism", "--seed", str(seed)], env=env, stdout=subprocess.PIPE, text=True)
        res.append([json.loads(l) for l in p.stdout.splitlines() if l.startswith("[")])
        print("%d workers, PYTHONHASHSEED=%s: %d scenarios, %d simulated processes, %.0f s" % (jobs, hs, len(res[-1]), sum(x[2] for x in res[-1]), time.time() - t0), flush=True)
    bad = 0
    for r in res[1:]:
        if len(r) != len(res[0]):
            print("another number of scenarios: %d, %d" % (len(r), len(res[0])))
            bad += 1
        for a, b in zip(res[0], r):
            if a != b:
                k = next((k for k, (x, y) in enumerate(zip(a[5], b[5])) if x != y), None)
                print("DIVERGES: %s scenario %d: %s; first process that differs: %s of %d" % (a[0], a[1], "the scenario" if a[3] != b[3] else "the execution", k, a[2]))
                bad += 1
    print("determinism: %d differences" % bad)
    return 1 if bad else 0
