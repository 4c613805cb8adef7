"""Properties of the library: the driver runs caller threads under the simulator; each result is compared with that
of the same call alone in a fresh process."""
import copy, json
from .core import Property, Violation
from . import gen as G, tools as T

ALONE = {"sched_seed": 7, "entropy_seed": 7, "manual": 1, "ncpu": 1}


def drive(ctx, scn, conf, timeout=120):
    ctx.box.put("scn.json", json.dumps(scn))
    r = ctx.run("driver", ["scn.json"], conf, timeout)
    if r.rc != 0:
        raise Violation("driver-dies", "the process of the callers dies: " + T.fail_text("driver", r))
    return json.loads(r.out), r


def plain(op):
    return op["op"] if isinstance(op, dict) else op


def world(scn):
    return {k: scn[k] for k in ("key", "stores", "matrices", "boot", "rthsd", "tb", "pb") if k in scn}


def alone(ctx, scn, op):
    """The result of one call in a fresh process."""
    w = world(scn)
    w["threads"] = [[plain(op)]]
    w["inline"] = True
    return drive(ctx, w, ALONE)[0]["threads"][0][0][0]


def short(x, n=300):
    t = json.dumps(x, ensure_ascii=False)
    return t if len(t) <= n else t[:n] + "..."


class Shared(Property):
    """Concurrent, failing and cancelled calls return what they return alone."""
    uses_tools = False
    components = {"real": "elinor library (compiled with a yield point at every basic block), rand, statrs, std", "simulated": "threads, entropy, clock, cancellation (panics) of callers inside their own key and iterator code",
                  "stub": "the callers (driver threads)"}
    assumptions = ["interleavings are explored at basic blocks, allocations, calls into the caller's code, locks and system calls, under sequential consistency"]

    def confs(self, rng, n, nblocks=True):
        out = []
        for _ in range(n):
            c = G.schedule(rng, steps=4000)
            if nblocks:
                G.grain(rng, c)
            out.append(c)
        return out

    def disturb(self, rng, op, pool, lim, p=0.25):
        """The call as a caller may make it: cancelled in the middle, with calls from the caller's code within it, with
        iterators that do not know their length."""
        d = {}
        if rng.random() < p:
            d["fuse"] = int(10 ** rng.uniform(0, lim))
        if rng.random() < 0.12:
            d["nest"] = {"at": int(10 ** rng.uniform(0, lim)), "op": rng.choice(pool)}
        if rng.random() < 0.15:
            d["hint"] = rng.choice([1, 1, 2])
        return dict(d, op=op) if d else op

    def same(self, op, got, truth):
        return got == truth

    def check(self, scn, ctx):
        truth = {}
        ops = [o for t in scn["threads"] for o in t] + scn.get("after", [])
        for op in ops + [o["nest"]["op"] for o in ops if isinstance(o, dict) and "nest" in o]:
            k = json.dumps(plain(op))
            if k not in truth:
                truth[k] = alone(ctx, scn, op)
                ctx.probes["calls that fail" if isinstance(truth[k], dict) and "err" in truth[k] else "calls that succeed"] += 1
        stores0 = None
        if scn.get("stores"):
            stores0 = drive(ctx, dict(world(scn), threads=[], inline=True, dump_stores=True), ALONE)[0]["stores"]
        busy = 0
        for ci, c in enumerate(scn["confs"]):
            s = dict(world(scn), threads=scn["threads"], after=scn.get("after", []), dump_stores=True)
            out, r = drive(ctx, s, c)
            busy += r.switches
            for ti, (ops, res) in enumerate(zip(scn["threads"] + [scn.get("after", [])], out["threads"] + [[[x, 0, 0] for x in out["after"]]])):
                for oi, (op, (got, b, e)) in enumerate(zip(ops, res)):
                    if isinstance(op, dict) and "nest" in op:
                        inner, got = got["inner"], got["outer"]
                        io = op["nest"]["op"]
                        if inner is not None:
                            ctx.probes["calls within calls"] += 1
                            if not self.same(io, inner, truth[json.dumps(io)]):
                                raise Violation("differs-within", "%s made by the caller's code within %s gives %s instead of %s (alone in a fresh process)" % (short(io), short(plain(op)), short(inner), short(truth[json.dumps(io)])))
                    if isinstance(op, dict) and isinstance(got, dict) and "cancelled" in got:
                        ctx.probes["cancelled calls"] += 1
                        continue
                    t = truth[json.dumps(plain(op))]
                    if not self.same(plain(op), got, t):
                        where = "after the others" if ti == len(scn["threads"]) else "as call %d of thread %d" % (oi, ti)
                        raise Violation("differs", "%s %s gives %s instead of %s (alone in a fresh process)" % (short(plain(op)), where, short(got), short(t)))
            if stores0 is not None and out["stores"] != stores0:
                raise Violation("store-changed", "the calls changed a store: %s instead of %s" % (short(out["stores"]), short(stores0)))
        scn["_busy"] = busy

    def nontrivial(self, scn, ctx):
        return scn.get("_busy", 0) > 0

    def shrink(self, scn, ctx):
        if len(scn["confs"]) > 1:
            for c in scn["confs"]:
                yield T.edit(scn, ["confs"], [c])
            return
        if scn.get("after"):
            yield from T.shrink_list(scn, ["after"], 0)
        c = scn["confs"][0]
        if "manual" not in c or not c.get("switches"):
            yield from T.shrink_list(scn, ["threads"], 1)
            for i in range(len(scn["threads"])):
                yield from T.shrink_list(scn, ["threads", i], 0)
            for i, t in enumerate(scn["threads"]):
                for j, o in enumerate(t):
                    if isinstance(o, dict):
                        yield T.edit(scn, ["threads", i, j], o["op"])
                        for k in o:
                            if k != "op":
                                yield T.edit(scn, ["threads", i, j], {x: v for x, v in o.items() if x != k})
            for i, st in enumerate(scn.get("stores", [])):
                for h in (0, 1):
                    yield from T.shrink_list(scn, ["stores", i, h], 1)
        if "manual" not in c and c.get("p_switch") is not None or c.get("pct") or c.get("p_block"):
            s = dict(world(scn), threads=scn["threads"], after=scn.get("after", []), dump_stores=True)
            try:
                r = drive(ctx, s, c)[1]
            except Violation:
                r = None
            sw = ctx.box.switches(r) if r is not None else None
            if sw is not None and len(sw) < 20000:
                d = {k: v for k, v in c.items() if k not in ("p_switch", "pct", "pct_at", "p_block")}
                d.update(manual=1, switches=sw)
                yield T.edit(scn, ["confs", 0], d)
        yield from T.shrink_conf(scn, ["confs", 0])
