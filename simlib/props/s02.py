"""S02: damaged input is read exactly as written or rejected."""
import json, math, re, struct
from ..core import Property, Violation
from .. import gen as G, ref as R, tools as T
from . import c01, c02


def damage(rng, b):
    """One to three damages at arbitrary byte positions."""
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = len(b)
        if n == 0:
            b += bytes(rng.randrange(256) for _ in range(rng.randint(0, 5)))
            continue
        k = rng.choice(["cut", "cuttail", "flip", "flip", "ins", "ins", "del", "del", "zero", "loseline", "dupline", "dupline2", "join", "join", "blank", "swap", "bytes", "token", "token", "token", "digits", "digits", "head", "rep"])
        p = rng.randrange(n)
        lines = bytes(b).split(b"\n")
        j = rng.randrange(len(lines))
        if k == "cut":
            del b[p:]
        elif k == "cuttail":
            del b[max(0, n - rng.randint(1, 12)):]
        elif k == "head":
            del b[:rng.randint(1, 12)]
        elif k == "flip":
            b[p] ^= 1 << rng.randrange(8)
        elif k == "ins":
            b[p:p] = bytes([rng.choice(b" \t\n\r0123456789.-+eE{}\",:x\x00\xc3\xff\x0b\x0c#")])
        elif k == "del":
            del b[p:p + rng.choice([1, 1, 2, 5, 30])]
        elif k == "zero":
            m = rng.choice([1, 8, 64, 512])
            b[p:p + m] = bytes(min(m, n - p))
        elif k == "bytes":
            b[p:p + 1] = rng.choice([b"\xef\xbb\xbf", b"\xc2\xa0", b"\xe3\x80\x80", b"\xe2\x80\xa8", b"\xc2\x85", b"\xff\xfe", b"\xed\xa0\x80", b"\r\r\n", b"\n\n", b"\x00"])
        elif k == "rep":
            m = rng.randint(1, 200)
            b[p:p] = b[p:p + m]
        else:
            if k == "loseline":
                del lines[j]
            elif k == "dupline":
                lines.insert(rng.randint(0, len(lines)), lines[j])
            elif k == "dupline2":
                l = lines[j]
                c = l.replace(b"1", b"2") if rng.random() < 0.5 else l.replace(b" ", b"  ")
                lines.insert(rng.randint(0, len(lines)), c)
            elif k == "join" and j + 1 < len(lines):
                lines[j:j + 2] = [lines[j] + rng.choice([b"", b" ", b"\r", b"\t"]) + lines[j + 1]]
            elif k == "blank":
                lines.insert(j, rng.choice([b"", b" ", b"\t", b"#", b"# comment", b"0"]))
            elif k == "swap" and j + 1 < len(lines):
                lines[j], lines[j + 1] = lines[j + 1], lines[j]
            elif k == "digits":
                runs = list(re.finditer(rb"[0-9]+", lines[j]))
                if runs:
                    m = rng.choice(runs[-3:])
                    d = m.group()
                    d = rng.choice([d * rng.choice([2, 5, 10, 20]), d + b"0" * rng.randint(1, 12), b"0" + d, d[:-1], d + b".5", d + b"e3", b"-" + d, d + b"-", d[:1] + b" " + d[1:],
                                    rng.choice([b"2147483647", b"2147483648", b"-2147483648", b"4294967295", b"4294967296", b"9223372036854775808", b"18446744073709551616"])])
                    lines[j] = lines[j][:m.start()] + d + lines[j][m.end():]
            elif k == "token":
                toks = lines[j].split(rng.choice([b" ", b":", b"\t"]))
                t = rng.randrange(len(toks)) if rng.random() < 0.6 else max(0, min(len(toks) - 1, rng.choice([3, 4])))
                toks[t] = rng.choice([b"", b"1", b"-1", b"+1", b"0x1", b"1.0", b"1e0", b"1.5", b"01", b"-0", b"2147483648", b"4294967296", b"-2147483649", b"99999999999999999999", b"1e400", b"NaN", b"inf", b"-inf",
                                      b"null", b"true", b"\"1\"", b"1,5", b"1_000", b"1.", b".5", b"-", b"e5", b"1e", b"\xd9\xa1", b"[]", b"1f64", b"1f", b"1u32", b" 1", b"rel", b"infinity", b"+-1", b"--1"])
                lines[j] = rng.choice([b" ", b":", b"\t"]).join(toks) if rng.random() < 0.1 else b" ".join(toks) if b":" not in lines[j] else b":".join(toks)
            b = bytearray(b"\n".join(lines))
    return bytes(b)


def bits(x):
    return "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0]


class P(Property):
    id = "S02"
    technique = "deterministic simulation with storage-corruption injection, readers against an independent reference grammar"
    quick, thorough = 8000, 160000
    components = {"real": "elinor library (trec module, stores), elinor-convert and elinor-evaluate binaries, serde_json", "simulated": "file system calls (split and interrupted reads), file contents (damage)",
                  "stub": "none"}
    rule = "a scenario is one or more damages to a well-formed file, read by a tool under split reads, or to twenty files read by the library; non-trivial: the damaged file differs from the original"
    assumptions = ["Rust's documented number grammar (i32 and f64 from_str), Unicode white space, and the JSON grammar"]

    def gen(self, rng, ctx, i, tier):
        how = rng.choice(["convert", "convert", "lib", "lib", "evaluate", "evaluate", "evaluate"])
        tr, pr = G.rels(rng, size=rng.choice(["small", "small", "small", "mid"]), ws=how == "evaluate")
        scn = {"how": how, "conf": G.benign_io(rng, G.quiet(rng)), "kind": rng.choice(["true", "pred"])}
        if how == "evaluate":
            files = {"true": G.jsonl_text(rng, [(q, d, max(s, 0)) for q, d, s in tr], "true").encode(),
                     "pred": G.jsonl_text(rng, [(q, d, G.json_score(rng, s)) for q, d, s in pr], "pred").encode()}
        elif how == "lib":
            files, scn["batch"] = {}, []
            for _ in range(20):
                k = rng.choice(["true", "pred"])
                tr, pr = G.rels(rng)
                f = G.trec_text(rng, tr if k == "true" else pr, k).encode()
                d = damage(rng, f) if rng.random() < 0.95 else f
                scn["batch"].append([k, T.pack(d)])
            return scn
        else:
            files = {scn["kind"]: G.trec_text(rng, tr if scn["kind"] == "true" else pr, scn["kind"]).encode()}
        k = scn["kind"]
        if rng.random() < 0.95:
            d = damage(rng, files[k])
            scn["_same"] = d == files[k]
            files[k] = d
        for n, f in files.items():
            scn[n] = T.pack(f)
        scn["metrics"] = G.all_metrics(rng)
        scn["tab"] = False
        return scn

    def check(self, scn, ctx):
        k = scn["kind"]
        if scn["how"] == "lib":
            return self.library(scn, ctx)
        data = T.unpack(scn[k])
        if scn["how"] == "convert":
            want = self.wanted(data, k)
            ctx.box.put("in.trec", data)
            r = ctx.run("convert", ["-i", "in.trec", "-o", "out.jsonl", "-r", k], scn["conf"])
            finite = want is not None and all(math.isfinite(s) for _, _, s in want)
            if r.rc != 0:
                if finite:
                    raise Violation("rejects", "convert rejects a well-formed file: %s" % T.fail_text("convert", r))
                ctx.probes["rejected"] += 1
                return
            if not finite:
                raise Violation("accepts", "convert accepts a malformed file")
            try:
                got = c01.read_output(ctx.box.get("out.jsonl"))
            except (ValueError, ZeroDivisionError) as e:
                raise Violation("output", "convert succeeds but %s" % e)
            ctx.probes["accepted"] += 1
            if got != want:
                raise Violation("misread", "convert reads %r instead of %r" % (self.diff(got, want)))
        else:
            for n in ("true", "pred"):
                ctx.box.put(n + ".jsonl", T.unpack(scn[n]))
            try:
                t, p = R.jsonl(T.unpack(scn["true"]), "true"), R.jsonl(T.unpack(scn["pred"]), "pred")
                R.evaluate(t, p, [])
                ok = bool(p)
                empty = not p
            except R.Bad:
                ok = empty = False
            if empty:
                return
            r = ctx.run("evaluate", c02.args(scn), scn["conf"])
            if r.rc != 0:
                if ok and not self.borderline(T.unpack(scn[k])):
                    raise Violation("rejects", "evaluate rejects a well-formed file: %s" % T.fail_text("evaluate", r))
                ctx.probes["rejected"] += 1
                return
            if not ok:
                raise Violation("accepts", "evaluate accepts a malformed file")
            ctx.probes["accepted"] += 1
            try:
                c02.check_report(scn, t, p, r.out, ctx.box.get("out.csv"))
            except ValueError as e:
                raise Violation("misread", "evaluate succeeds on a damaged file but %s" % e)

    @staticmethod
    def wanted(data, k):
        try:
            return R.trec(data, k)
        except R.Bad:
            return None

    def library(self, scn, ctx):
        """Many files in one process."""
        calls, wants = [], []
        for k, b in scn["batch"]:
            data = T.unpack(b)
            try:
                lines = R.lines_of(data)
            except R.Bad:
                continue
            calls.append([["trec", k, lines]])
            wants.append((k, lines, self.wanted(data, k)))
        if not calls:
            return
        ctx.box.put("scn.json", json.dumps({"key": "String", "stores": [], "matrices": [], "threads": [[c[0] for c in calls]], "inline": True}))
        r = ctx.run("driver", ["scn.json"], scn["conf"])
        if r.rc != 0:
            raise Violation("driver", T.fail_text("driver", r))
        for (k, lines, want), res in zip(wants, json.loads(r.out)["threads"][0]):
            self.one(k, lines, want, res[0], ctx)

    def one(self, k, lines, want, res, ctx):
        if isinstance(res, dict):
            if "panic" in res:
                raise Violation("panics", "the library fails with a panic instead of an error on the lines %r: %r" % (lines[:20], res))
            if want is not None:
                raise Violation("rejects", "the library rejects well-formed lines: %r: %r" % (res, lines[:20]))
            ctx.probes["rejected"] += 1
            return
        if want is None:
            raise Violation("accepts", "the library accepts malformed lines %r" % (lines[:20],))
        ctx.probes["accepted"] += 1
        got = [tuple(x) for x in res]
        if [(q, d) for q, d, _ in got] != [(q, d) for q, d, _ in want] and not any(s != s for _, _, s in want):
            raise Violation("misread", "the library reads %r instead of %r" % (self.diff([g[:2] for g in got], [e[:2] for e in want])))
        gm, em = {(q, d): s for q, d, s in got}, {(q, d): s for q, d, s in want}
        if len(got) != len(gm) or set(gm) != set(em) or any(not self.same(gm[x], em[x], k) for x in em):
            raise Violation("misread", "the library reads %r instead of %r" % (self.diff(got, want)))

    @staticmethod
    def borderline(b):
        # deep nesting and huge numbers have limits of the JSON reader's own; rejecting is always safe
        return b"e" in b or b"E" in b or len(b) > 100000 or b"[[" in b

    @staticmethod
    def same(g, e, k):
        if k == "true":
            return g == e
        return g == bits(e) or (e == 0 and g in (bits(0.0), bits(-0.0))) or (e != e and g == "nan")

    @staticmethod
    def diff(a, b):
        for i in range(max(len(a), len(b))):
            x, y = a[i] if i < len(a) else None, b[i] if i < len(b) else None
            if x != y:
                return x, y
        return a[:3], b[:3]

    def nontrivial(self, scn, ctx):
        return not scn.get("_same", False)

    def shrink(self, scn, ctx):
        if "batch" in scn:
            yield from T.shrink_list(scn, ["batch"])
            for i in range(len(scn["batch"])):
                yield from T.shrink_file(scn, ["batch", i, 1])
        for n in ("true", "pred"):
            if n in scn:
                yield from T.shrink_file(scn, [n])
        if len(scn.get("metrics", ())) > 1:
            yield from T.shrink_list(scn, ["metrics"])
        yield from T.shrink_conf(scn, ["conf"])
