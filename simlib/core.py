"""Seeded search: generates scenarios, runs them in worker processes, minimises and reports violations."""
import base64, hashlib, importlib, json, multiprocessing as mp, os, random, re, shutil, sys, tempfile, time, traceback
from collections import Counter

from . import build as B
from .sim import Box, HarnessError, Timeout, Run, describe_log

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Violation(Exception):
    """The property does not hold in this run.  kind is stable under minimisation, text is for people."""

    def __init__(self, kind, text):
        super().__init__(text)
        self.kind, self.text = kind, text


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()[:8], "big")


class Ctx:
    """One worker's scratch world and its measurements."""

    def __init__(self, base, tools):
        self.box = Box(base, tools)
        self.tools = tools
        self.reset()

    def reset(self):
        self.n_runs = 0
        self.sim_ns = 0
        self.steps = 0
        self.switches = 0
        self.faults = Counter()
        self.exits = Counter()
        self.probes = Counter()
        self.kinds = Counter()
        self.inter = set()
        self.states = set()
        self.last = None
        self.trace = []

    def run(self, exe, args, conf, timeout=120):
        try:
            r = self.box.run(exe, args, conf, timeout)
        except Timeout as e:
            # once more: only a reproducible hang counts
            try:
                r = self.box.run(exe, args, conf, timeout * 2)
            except Timeout:
                raise Violation("hang", "%s %s makes no progress (%s)" % (exe, " ".join(map(str, args)), e))
        self.n_runs += 1
        self.sim_ns += r.sim_ns
        self.steps += r.steps
        self.switches += r.switches
        for l in r.faults():
            self.faults["%s:%s" % (l[2], l[5])] += 1
        if r.spurious:
            self.faults["futex:spurious-wakeup"] += r.spurious
        if r.timeouts:
            self.faults["timer:fired"] += r.timeouts
        self.exits["%s:%s" % (exe, "crash" if r.rc == -9 else r.rc)] += 1
        if r.switches:
            self.inter.add(r.sw_hash)
        self.states.add(r.ev_hash)
        self.last = r
        if r.ended in (2, 3):
            raise Violation("deadlock" if r.ended == 2 else "no-progress", "%s: %s" % (exe, [describe_log(l) for l in r.log if l[0] == "E"]))
        return r

    def measures(self):
        return dict(runs=self.n_runs, sim_ns=self.sim_ns, steps=self.steps, switches=self.switches, faults=dict(self.faults),
                    exits=dict(self.exits), probes=dict(self.probes), inter=list(self.inter), states=list(self.states))


class Property:
    """One property: gen(rng, ctx, i) -> scenario, check(scn, ctx) raises Violation, shrink(scn) -> smaller scenarios."""
    id = ""
    technique = ""
    quick = 100       # scenarios
    thorough = 1000
    uses_tools = True
    uses_driver = True
    components = {}
    rule = ""
    level_note = ""
    assumptions = []

    def gen(self, rng, ctx, i, tier):
        raise NotImplementedError

    def check(self, scn, ctx):
        raise NotImplementedError

    def nontrivial(self, scn, ctx):
        return True

    def shrink(self, scn, ctx):
        return iter(())

    def known(self, ctx):
        """Known findings: yields (name, holds_text or None)."""
        return iter(())


def listed_findings(pid):
    with open(KNOWN) as f:
        return {m.group(1) for m in re.finditer(r"^known: property=%s id=(\S+)" % pid, f.read(), re.M)}


def load(pid):
    return importlib.import_module("simlib.props." + pid.lower()).P()


def run_scenario(prop, scn, ctx):
    ctx.box.clean()
    try:
        prop.check(scn, ctx)
        return None
    except Violation as v:
        return v


_W = {}


def _winit(pid, base, tools, counter):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with counter.get_lock():
        counter.value += 1
        n = counter.value
    _W["prop"] = load(pid)
    _W["ctx"] = Ctx(os.path.join(base, "k%02d" % n), tools)


def _wrun(a):
    i, seed, tier = a
    prop, ctx = _W["prop"], _W["ctx"]
    ctx.reset()
    t0 = time.time()
    try:
        rng = random.Random(seed)
        ctx.box.clean()
        scn = prop.gen(rng, ctx, i, tier)
        ctx.box.clean()
        scn["_seed"] = seed
        v = run_scenario(prop, scn, ctx)
        nt = bool(prop.nontrivial(scn, ctx))
        canon = json.dumps({k: scn[k] for k in scn if not k.startswith("_")}, sort_keys=True)
        return dict(i=i, seed=seed, viol=(v.kind, v.text) if v else None, scn=scn if v or i < 3 else None,
                    nt=nt, h=hashlib.sha256(canon.encode()).hexdigest()[:16], m=ctx.measures(), t=time.time() - t0, err=None)
    except Exception:
        return dict(i=i, seed=seed, err=traceback.format_exc(), viol=None, scn=None, nt=False, h="", m=ctx.measures(), t=time.time() - t0)


def minimise(prop, scn, kind, ctx, budget=90.0, log=None):
    """Greedy: takes any smaller scenario that fails in the same way."""
    t0 = time.time()
    tried = 0
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for c in prop.shrink(scn, ctx):
            if time.time() - t0 > budget:
                break
            tried += 1
            try:
                v = run_scenario(prop, c, ctx)
            except HarnessError:
                continue
            except Exception:
                continue
            if v is not None and v.kind == kind:
                scn = c
                progress = True
                break
    return scn, tried


def write_replay(pid, scn, v, tried):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%s.json" % (pid, hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12])
    p = os.path.join(REPLAYS, name)
    with open(p, "w") as f:
        json.dump({"property": pid, "kind": v.kind, "violation": v.text, "seed": scn.get("_seed"), "minimised_after": tried,
                   "scenario": scn, "replay_with": "python3 check.py --replay " + p}, f, indent=1, ensure_ascii=False)
    return p


def sizeable(s, n=1500):
    t = json.dumps(s, ensure_ascii=False)
    return json.loads(t) if len(t) <= n else t[:n] + "..."


def main_check(pid, tier, seed, jobs=None, count=None, cap=None, verbose=False):
    t0 = time.time()
    prop = load(pid)
    tools = B.build(prop.uses_tools, prop.uses_driver)
    t_build = time.time() - t0
    n = count or (prop.quick if tier == "quick" else prop.thorough)
    cap = cap or (420 if tier == "quick" else 3600)
    jobs = jobs or min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix="sim-%s-" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    print("# %s tier=%s seed=%d scenarios=%d workers=%d (build %.1f s)" % (pid, tier, seed, n, jobs, t_build), flush=True)
    agg = dict(runs=0, sim_ns=0, steps=0, switches=0)
    faults, exits, probes = Counter(), Counter(), Counter()
    inter, states, hashes = set(), set(), set()
    samples, viols, errs, done, nt = [], [], [], 0, 0
    fail = 0
    try:
        counter = mp.Value("i", 0)
        work = [(i, seed_of(pid, seed, i), tier) for i in range(n)]
        t1 = time.time()
        with mp.Pool(jobs, _winit, (pid, base, tools, counter)) as pool:
            for r in pool.imap_unordered(_wrun, work, chunksize=1):
                done += 1
                if r["err"]:
                    errs.append(r)
                    if len(errs) >= 3:
                        break
                    continue
                m = r["m"]
                for k in agg:
                    agg[k] += m[k]
                faults.update(m["faults"]); exits.update(m["exits"]); probes.update(m["probes"])
                inter.update(m["inter"]); states.update(m["states"])
                if r["nt"] and r["h"] not in hashes:
                    hashes.add(r["h"]); nt += 1
                if r["i"] < 3 and r["scn"] is not None:
                    samples.append(r["scn"])
                if verbose and (r["t"] > 20):
                    print("slow", r["i"], r["seed"], "%.1f" % r["t"], flush=True)
                if r["viol"]:
                    viols.append(r)
                    if len(viols) >= 3 or time.time() - t1 > 60:
                        break
                if time.time() - t1 > cap:
                    break
            pool.terminate()
        t_search = time.time() - t1
        if errs and not viols:
            print("HARNESS ERROR in scenario %d (seed %d):\n%s" % (errs[0]["i"], errs[0]["seed"], errs[0]["err"]))
            return 2
        ctx = Ctx(os.path.join(base, "min"), tools)
        for name, what in prop.known(ctx):
            if what and name in listed_findings(pid):
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, name, what))
            elif what:
                p = write_replay(pid, {"finding": name}, Violation("unlisted", what), 0)
                print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
                fail = 1
        reported = set()
        for r in sorted(viols, key=lambda r: r["i"]):
            kind = r["viol"][0]
            if kind in reported:
                continue
            reported.add(kind)
            print("scenario %d seed %d: %s: %s" % (r["i"], r["seed"], kind, r["viol"][1][:2000]), flush=True)
            v0 = run_scenario(prop, r["scn"], ctx)
            if v0 is None:
                print("not reproduced outside the search: harness error")
                fail = max(fail, 2)
                continue
            scn, tried = minimise(prop, r["scn"], v0.kind, ctx, budget=60 if tier == "quick" else 300)
            v = run_scenario(prop, scn, ctx) or v0
            p = write_replay(pid, scn, v, tried)
            print("minimised (%d trials): %s" % (tried, v.text[:3000]))
            print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
            fail = 1
        wall = time.time() - t0
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": done, "distinct_nontrivial": nt, "rule": prop.rule,
                "samples": [sizeable({k: v for k, v in s.items()}) for s in samples[:3]],
                "simulated_processes": agg["runs"],
                "scenarios_per_hour": int(done / max(t_search, 1e-9) * 3600),
                "simulated_processes_per_hour": int(agg["runs"] / max(t_search, 1e-9) * 3600),
                "seeds_per_hour": int(done / max(t_search, 1e-9) * 3600),
                "simulated_seconds": round(agg["sim_ns"] / 1e9, 3),
                "yield_points": agg["steps"], "context_switches": agg["switches"],
                "distinct_interleavings": len(inter),
                "distinct_interleavings_measure": "distinct hashes of the sequence of (thread switched to, kind of yield point) over one process",
                "distinct_executions": len(states),
                "distinct_executions_measure": "distinct hashes of the sequence of (event kind, thread) over one process",
                "faults_fired": dict(sorted(faults.items())), "exits": dict(sorted(exits.items())),
                "reach_probes": dict(sorted(probes.items())),
                "components": prop.components,
                "build_s": round(t_build, 1), "search_s": round(t_search, 1), "workers": jobs, "planned_scenarios": n,
            },
            "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": len(reported) if fail == 1 else 0,
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print("%s: %d scenarios (%d distinct non-trivial), %d simulated processes, %d interleavings, %.1f s" %
              (pid, done, nt, agg["runs"], len(inter), wall))
        if verbose:
            print(json.dumps({k: ev["coverage"][k] for k in ("faults_fired", "exits", "reach_probes")}, indent=1))
        return fail
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main_replay(path):
    d = json.load(open(path))
    prop = load(d["property"])
    tools = B.build(prop.uses_tools, prop.uses_driver)
    base = tempfile.mkdtemp(prefix="sim-replay-")
    try:
        ctx = Ctx(base, tools)
        v = run_scenario(prop, d["scenario"], ctx)
        if ctx.last is not None:
            for l in ctx.last.log:
                if l[0] in "FME":
                    print(describe_log(l))
        if v is None:
            print("REPLAY: the property held")
            return 0
        print("REPLAY: %s: %s" % (v.kind, v.text))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
