"""C01: convert reports success only if the whole converted file was written."""
import json, math
from ..core import Property, Violation
from .. import gen as G, ref as R, tools as T
from ..sim import describe_log


def expect(data, kind):
    try:
        return R.trec(data, kind)
    except R.Bad:
        return None


def read_output(b):
    """The records of a JSON lines file, strictly."""
    if b is None:
        raise ValueError("no output file")
    if b and not b.endswith(b"\n"):
        raise ValueError("last line is cut off: %r" % b[-80:])
    out = []
    for l in b.split(b"\n")[:-1]:
        d = json.loads(l.decode("utf-8"), parse_constant=lambda x: 1 / 0)
        if not isinstance(d, dict) or set(d) != {"query_id", "doc_id", "score"}:
            raise ValueError("not a record: %r" % l[:200])
        if not isinstance(d["score"], (int, float)) or isinstance(d["score"], bool):
            raise ValueError("not a number: %r" % l[:200])
        out.append((d["query_id"], d["doc_id"], d["score"]))
    return out


class P(Property):
    id = "C01"
    technique = "deterministic simulation with I/O fault injection, convert against a reference parser"
    quick, thorough = 3000, 80000
    uses_driver = False
    components = {"real": "elinor-convert binary, elinor library, serde_json, Rust std I/O", "simulated": "every file system call, allocation failure, entropy",
                  "stub": "none"}
    rule = "a scenario is one TREC file (1 to some 4000 judgements; nasty identifiers, ties, odd numbers) converted under a fault-free run and 6 seeded fault plans; non-trivial: at least one fault fired"
    assumptions = ["the kernel's file system below the intercepted calls keeps what a successful write reports"]

    def gen(self, rng, ctx, i, tier):
        kind = rng.choice(["true", "pred"])
        size = rng.choice(["small", "mid", "mid", "large"])
        vast = rng.random() < 0.006
        tr, pr = G.vast(rng) if vast else G.rels(rng, size=size)
        recs = tr if kind == "true" else pr
        if rng.random() < 0.05 and size != "large":
            big = "x" * rng.choice([4096, 8000, 8192, 9000, 20000])
            recs = recs + [(recs[0][0], big, "1")]
        if rng.random() < 0.03:
            recs = []
        if kind == "pred" and rng.random() < 0.04 and recs:
            j = rng.randrange(len(recs))
            recs[j] = (recs[j][0], recs[j][1], rng.choice(["inf", "-inf", "NaN", "nan", "Infinity", "1e999"]))
        text = G.trec_text(rng, recs, kind)
        scn = {"kind": kind, "file": T.pack(text), "pre": rng.choice([0, 0, 10, 500000]), "confs": [G.quiet(rng)]}
        ctx.box.put("in.trec", text)
        r = ctx.run("convert", self.args(scn), scn["confs"][0])
        edge = r.rc == 0 and rng.random() < 0.1 and self.edge(rng, scn, recs, kind, ctx)
        if edge:
            r = ctx.run("convert", self.args(scn), scn["confs"][0])
        for j in range(1 if vast else 6):
            c = G.quiet(rng)
            if edge and j < 3:
                n = len(G.op_groups(r).get(("write", "out.jsonl"), [0]))
                c["faults"] = [["write", "out.jsonl", str(1 if j == 0 else rng.randint(1, n)), "err", rng.choice(G.WRITE_ERR)]]
            elif r.rc == 0:
                G.fault_plan(rng, r, c)
            scn["confs"].append(c)
        return scn

    def edge(self, rng, scn, recs, kind, ctx):
        """Lengthens one identifier so that some line of the output ends where a buffer of 4096 or 8192 bytes does."""
        out = ctx.box.get("out.jsonl") or b""
        size = rng.choice([4096, 8192, 8192, 8192, 16384])
        off = rng.choice([0, 0, 0, 1, -1])
        k = out.rfind(b"\n", 0, size + off + 1)
        if k < 0 or len(out) <= size + 2:
            return False
        d = json.loads(out[out.rfind(b"\n", 0, k) + 1:k].decode("utf-8"))
        recs = [(q, x + "z" * (size + off - k), s) if (q, x) == (d["query_id"], d["doc_id"]) else (q, x, s) for q, x, s in recs]
        text = G.trec_text(rng, recs, kind)
        scn["file"] = T.pack(text)
        ctx.box.put("in.trec", text)
        return True

    def args(self, scn):
        return ["-i", "in.trec", "-o", "out.jsonl", "-r", scn["kind"]]

    def check(self, scn, ctx):
        data = T.unpack(scn["file"])
        want = expect(data, scn["kind"])
        finite = want is not None and all(math.isfinite(s) for _, _, s in want)
        fired = 0
        for c in scn["confs"]:
            ctx.box.clean()
            ctx.box.put("in.trec", data)
            if scn["pre"]:
                ctx.box.put("out.jsonl", b"{stale}\n" * (scn["pre"] // 8 + 1))
            r = ctx.run("convert", self.args(scn), c)
            fired += len(r.faults())
            if r.rc == 0:
                ctx.probes["exit 0 after a hard fault"] += bool(T.excused(r))
                if want is None:
                    raise Violation("accepts-malformed", "convert succeeds on malformed input")
                try:
                    got = read_output(ctx.box.get("out.jsonl"))
                except (ValueError, ZeroDivisionError, UnicodeDecodeError) as e:
                    raise Violation("bad-output", "convert succeeds but its output is not complete: %s; faults: %s" % (e, [describe_log(l) for l in r.faults()][:5]))
                if got != want:
                    k = next((j for j in range(max(len(got), len(want))) if j >= len(got) or j >= len(want) or got[j] != want[j]), 0)
                    raise Violation("wrong-output", "convert succeeds but of %d judgements it wrote %d; record %d is %r instead of %r; faults: %s" % (
                        len(want), len(got), k, got[k] if k < len(got) else None, want[k] if k < len(want) else None, [describe_log(l) for l in r.faults()][:5]))
            elif finite and not T.excused(r):
                raise Violation("fails", "on a well-formed input and without a failing operation, " + T.fail_text("convert", r))
            else:
                ctx.probes["failure reported"] += 1
        scn["_fired"] = fired

    def nontrivial(self, scn, ctx):
        return scn.get("_fired", 0) > 0

    def shrink(self, scn, ctx):
        if len(scn["confs"]) > 1:
            for c in scn["confs"]:
                yield T.edit(scn, ["confs"], [c])
        if scn["pre"]:
            yield T.edit(scn, ["pre"], 0)
        yield from T.shrink_file(scn, ["file"])
        for j in range(len(scn["confs"])):
            yield from T.shrink_conf(scn, ["confs", j])
