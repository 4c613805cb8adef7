"""Workload generators, all from one random.Random."""
import json, math

ALPH = ["abcdefghijklmnopqrstuvwxyz", "ABCabc012", "0123456789", "-_./:#%+", "éßñ漢字ыλ😀", "\"\\,;'|{}[]", "\x00\x01\x08\x1b\x1c\x1f\x7f\u200b\u180e\u2060\u0301\ufffd\ue000"]


def ids(rng, n, plain=False, ws=False):
    """n distinct identifiers without white space, in one of several styles."""
    style = rng.choice(["seq", "seq", "num", "num0", "rand", "rand", "nasty", "long", "prefix"]) if not plain else "seq"
    out, seen = [], set()
    if style == "seq":
        p = rng.choice(["q_", "d_", "Q", "doc-", "t"])
        out = ["%s%d" % (p, i + rng.choice([0, 1])) for i in range(0, 2 * n, 2)]
    elif style == "num":
        b = rng.choice([1, 8, 95, 998])
        out = [str(b + i) for i in range(n)]
    elif style == "num0":
        while len(out) < n:
            x = rng.choice(["0" * rng.randint(0, 3) + str(rng.randint(0, 12)), "%d.0" % rng.randint(0, 9), "%de%d" % (rng.randint(1, 9), rng.randint(0, 3)), "-%d" % rng.randint(0, 9), "+%d" % rng.randint(1, 9), rng.choice(["true", "false", "null", "NaN", "inf", "None", "0x1F"])])
            if x not in seen:
                seen.add(x); out.append(x)
            elif len(seen) > 30:
                x = x + str(len(seen)); seen.add(x); out.append(x)
    elif style == "prefix":
        while len(out) < n:
            x = "".join(rng.choice("ab") for _ in range(rng.randint(1, 2 + int(math.log2(n + 1)) + 1)))
            if x not in seen:
                seen.add(x); out.append(x)
    else:
        while len(out) < n:
            if style == "rand":
                al = ALPH[0] + ALPH[2]
            elif style == "long":
                al = ALPH[0] + ALPH[1]
            else:
                al = "".join(ALPH)
            x = "".join(rng.choice(al) for _ in range(rng.randint(1, 8) if style != "long" else rng.randint(1, 400)))
            if x not in seen and "\ufeff" not in x:
                seen.add(x); out.append(x)
    if not plain and rng.random() < 0.02:   # one that fills buffers
        i, m = rng.randrange(len(out)) if out else 0, rng.choice([1000, 4096, 8192, 8192, 16384, 65536, 65536, 65536, 131072])
        if out:
            out[i] += "x" * max(0, m + rng.randint(-40, 40) - len(out[i]))
    if ws and rng.random() < 0.25:     # what only quoting keeps together
        seen = set(out)
        for i in range(len(out)):
            if rng.random() < 0.4:
                j = rng.randint(0, len(out[i]))
                x = out[i][:j] + rng.choice([" ", " ", "\n", "\r", "\r\n", "\t", "\u00a0", "\u3000", "\u2028", "\x0b", "\"\n", "\n\"", ",\n", "\n,0.5\n"]) + out[i][j:] if rng.random() < 0.95 else ""
                if x not in seen:
                    seen.add(x)
                    out[i] = x
    rng.shuffle(out)
    return out[:n]


GIANT = [255, 256, 257, 32767, 65535, 65536, 65537, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 2, 2**63, 2**64 - 2, 2**64 - 1]


def score_text(rng, style):
    """A decimal that every correctly rounding or fast-path parser reads alike (at most 15 digits, small exponent)."""
    if style == "tie":
        v = rng.choice([0, 0.5, 1, 1.5, -1])
        return rng.choice([repr(float(v)), "%g" % v, "%.3f" % v])
    if style == "int":
        return str(rng.randint(-5, 60))
    if style == "exp":
        return rng.choice(["%de-%d", "%dE%d", "%d.5e-%d", "-%d.25e%d"]) % (rng.randint(0, 999), rng.randint(0, 6))
    if style == "odd":
        return rng.choice([".5", "5.", "+2.5", "-0.0", "0.0", "00012.50", "-.25", "1e2", "100", "0", "-0"])
    return "%.*f" % (rng.randint(1, 6), rng.uniform(-20, 100))


def rels(rng, nq=None, nd=None, size="small", ws=False):
    """(trues, preds): lists of (query, doc, relevance) and (query, doc, score text), unsorted."""
    if size == "small":
        nq, nd = nq or rng.randint(1, 5), nd or rng.randint(1, 9)
    elif size == "mid":
        nq, nd = nq or rng.randint(2, 14), nd or rng.randint(5, 40)
    else:
        nq, nd = nq or rng.randint(3, 20), nd or rng.randint(60, 220)
    qs, ds = ids(rng, nq, ws=ws), ids(rng, nd, ws=ws)
    grades = rng.choice([[0, 1], [0, 1], [0, 1, 2, 3], [0, 0, 0, 1], [1], [0], [1, 2], [0, 1, 5, 9], [-1, 0, 1, 2], [0, 1, 20]])
    style = rng.choice(["tie", "tie", "int", "dec", "dec", "exp", "odd"])
    pj, pp = rng.choice([(0.8, 0.6), (0.3, 0.9), (0.6, 0.3), (1, 1), (0.5, 0.5)])
    T, P = [], []
    for q in qs:
        cand = [d for d in ds if rng.random() < pj] or [rng.choice(ds)]
        for d in cand:
            T.append((q, d, rng.choice(grades)))
        if rng.random() < 0.9 or not P:
            got = [d for d in ds if rng.random() < pp] or [rng.choice(ds)]
            for d in got:
                P.append((q, d, score_text(rng, style)))
    if rng.random() < 0.08:    # pairs that only look alike where query and document are run together
        sep = rng.choice(["", "", ":", "/", "-", "_", ",", "|", "#", "\x00", ".", "@", "::", "="] + ([" ", " ", "\t", "\n", ", "] if ws else []))
        tok = [rng.choice("abc12") for _ in range(rng.choice([3, 4, 5]))]
        have = {x[:2] for x in T} | {x[:2] for x in P}
        for i in range(1, len(tok)):
            q, d = sep.join(tok[:i]), sep.join(tok[i:])
            if (q, d) not in have:
                T.append((q, d, rng.choice(grades)))
                P.append((q, d, score_text(rng, style)))
    rng.shuffle(T)
    rng.shuffle(P)
    return T, P


def vast(rng, deep=None):
    """Like rels, beyond what counters of 8 or 16 bits, chunks and buffers hold: many queries, or one with many documents."""
    T, P = [], []
    if deep is None:
        deep = rng.random() < 0.4
    if deep:
        n = rng.choice([3000, 33000, 66000, 70000])
        rel = set(rng.sample(range(n), rng.choice([1, 5, 20]))) | {n - 1}
        for d in range(n):
            P.append(("q", "d%d" % d, str(n - d)))
            if d in rel or rng.random() < 0.02:
                T.append(("q", "d%d" % d, rng.choice([1, 1, 2, 3]) if d in rel else 0))
        for d in range(rng.choice([0, 300])):
            T.append(("q", "x%d" % d, rng.choice([0, 1])))
    else:
        n = rng.choice([300, 1100, 1100, 2500, 5000])
        for q in range(n):
            for d in range(rng.randint(1, 3)):
                T.append(("q%d" % q, "d%d" % d, rng.randint(0, 2)))
                if rng.random() < 0.7 or not d:
                    P.append(("q%d" % q, "d%d" % (d if rng.random() < 0.9 else d + 5), "%d.5" % rng.randint(0, 9)))
        rng.shuffle(T)
    rng.shuffle(P)
    return T, P


def halfway(rng):
    """Like rels; the means of the metrics (also returned) often lie halfway between two numbers of four decimals."""
    n, d = rng.choice([(16, 10), (16, 10), (48, 10), (80, 10), (32, 5), (16, 3), (48, 6)])
    T, P = [], []
    for q in range(n):
        for j in range(d):
            T.append(("q%03d" % q, "d%d" % j, rng.choice([0, 0, 1])))
            P.append(("q%03d" % q, "d%d" % j, str(rng.randint(0, 50))))
    return T, P, rng.sample(["precision", "precision@10", "precision@5", "precision@3", "recall@1", "rr", "f1@2", "f1", "ap@2", "r_precision", "hits@3"], rng.choice([3, 6, 11]))


def trec_text(rng, recs, kind, fancy=True):
    sep = rng.choice([" ", " ", "\t", "  ", " \t"] if rng.random() < 0.9 else ["\x0b", "\x0c", "\u00a0", "\u3000", "\u2003 ", "\x85", "\u2028", "\r", "\u1680\t"]) if fancy else " "
    eol = rng.choice(["\n", "\n", "\r\n"]) if fancy else "\n"
    lead = rng.random() < 0.1 and fancy
    extra = rng.random() < 0.2 and fancy
    out = []
    for i, (q, d, s) in enumerate(recs):
        c = [q, "0" if kind == "true" else "Q0", d] + ([str(s)] if kind == "true" else [str(rng.randint(1, 99)), s, "run"])
        if kind != "true" and rng.random() < 0.3 and fancy:
            c = c[:5]
        if extra and rng.random() < 0.3:
            c = c + ["x%d" % i]
            if rng.random() < 0.01:
                c[-1] += "y" * (rng.choice([4096, 8192, 65536, 65536]) - rng.randint(0, 60))
        out.append((" " if lead else "") + sep.join(c) + (" " if lead else ""))
    t = eol.join(out)
    if not fancy or rng.random() < 0.85:
        t += eol
    return t


def jsonl_text(rng, recs, kind, fancy=True):
    out = []
    asc = rng.random() < 0.4
    for q, d, s in recs:
        if kind == "true":
            sv = str(max(int(s), 0))
        else:
            sv = s
        f = [("query_id", json.dumps(q, ensure_ascii=asc)), ("doc_id", json.dumps(d, ensure_ascii=asc)), ("score", sv)]
        if fancy and rng.random() < 0.2:
            rng.shuffle(f)
        sp = rng.choice(["", " "])
        out.append("{" + ("," + sp).join('"%s":%s%s' % (k, sp, v) for k, v in f) + "}")
    t = "\n".join(out)
    if not fancy or rng.random() < 0.85:
        t += "\n"
    return t


def json_score(rng, t):
    """A score text valid in JSON."""
    v = float(t)
    return repr(v)


def metrics(rng, n=None):
    names = ["hits", "success", "precision", "recall", "f1", "ap", "rr", "dcg", "ndcg", "dcg_burges", "ndcg_burges"]
    out, seen = [], set()
    for _ in range(n or rng.randint(1, 8)):
        if rng.random() < 0.15:
            m = rng.choice(["r_precision", "bpref"])
        else:
            k = rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 10, 20, 100, 1000]) if rng.random() < 0.95 else rng.choice(GIANT)
            b = rng.choice(names)
            m = b if k == 0 else "%s@%d" % (b, k)
        if m not in seen:
            seen.add(m)
            if rng.random() < 0.02:     # other spellings of the same
                m = m.replace("@", "@" + "0" * rng.randint(1, 25)) if "@" in m else m + "@0"
            out.append(m)
    return out


def all_metrics(rng):
    out = ["r_precision", "bpref"]
    for b in ["hits", "success", "precision", "recall", "f1", "ap", "rr", "dcg", "ndcg", "dcg_burges", "ndcg_burges"]:
        k = rng.choice([1, 2, 3, 5, 8, 13]) if rng.random() < 0.97 else rng.choice(GIANT)
        out += [b, "%s@%d" % (b, k)]
    rng.shuffle(out)
    return out


# ------------------------------------------------------------------ matrices
def matrix(rng, n, m, style=None):
    """n topics by m systems; dyadic styles make all sums exact."""
    style = style or rng.choice(["dyadic", "dyadic", "dyadic", "coarse", "coarse", "unit", "unit", "metric", "metric", "wide", "wide", "binary", "tied"])
    agree = rng.choice([0.4, 0.6, 0.8, 0.9])
    eff = [rng.choice([0, 0, 0.25, 0.5]) for _ in range(m)]
    X = []
    for _ in range(n):
        base = rng.randint(0, 32) / 32
        row = []
        if style == "tied" and rng.random() < agree:
            X.append([base] * m)
            continue
        for j in range(m):
            if style == "dyadic":
                v = rng.randint(0, 64) / 64 + eff[j]
            elif style == "tied":
                v = rng.randint(0, 64) / 64 + eff[j]
            elif style == "binary":
                v = float(rng.random() < 0.3 + eff[j])
            elif style == "coarse":
                v = rng.choice([0, 0.25, 0.5, 1.0])
            elif style == "unit":
                v = round(rng.random() + eff[j], 4)
            elif style == "metric":
                v = rng.choice([0.0, 1.0, 0.5, 1 / 3, 2 / 3, 0.25, 0.2, 0.1])
            else:
                v = round(rng.gauss(0, 100), 3) + base
            row.append(v)
        X.append(row)
    return X


# ------------------------------------------------------------------ simulator settings
U = 1 << 32


def schedule(rng, conf=None, steps=20000):
    """Random schedule, clock, CPUs, entropy."""
    c = conf if conf is not None else {}
    c["sched_seed"] = rng.getrandbits(48)
    c["entropy_seed"] = rng.getrandbits(48)
    c["ncpu"] = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 16])
    if rng.random() < 0.3:
        c["pct"] = 1
        c["pct_at"] = sorted(rng.randint(1, max(2, steps)) for _ in range(rng.randint(0, 6)))
    else:
        c["p_switch"] = min(U - 1, int(2 ** rng.uniform(14, 32)))
    if rng.random() < 0.5:
        c["p_spurious"] = int(U * rng.choice([0.01, 0.1, 0.3]))
    if rng.random() < 0.7:
        c["pad"] = rng.randint(1, 10**9)
    c["clock0"] = rng.choice([0, 1, 946684799, 1790000000, 4102444800]) * 1000000000 + rng.randint(0, 999999999)
    c["clock_step"] = rng.choice([0, 1, 100, 10000])
    if rng.random() < 0.4:
        c["clock_jumps"] = [[rng.randint(1, 30), rng.choice([-1, 1]) * rng.choice([10**6, 10**9, 3600 * 10**9, 86400 * 365 * 10**9])] for _ in range(rng.randint(1, 3))]
        c["clock_jumps"].sort()
    return c


def benign_io(rng, c):
    c["io_seed"] = rng.getrandbits(48)
    c["p_io_short"] = int(U * rng.choice([0, 0.05, 0.3, 0.9]))
    c["p_io_eintr"] = int(U * rng.choice([0, 0.05, 0.3, 0.6]))
    return c


def quiet(rng):
    return {"sched_seed": rng.getrandbits(48), "entropy_seed": rng.getrandbits(48), "ncpu": rng.choice([1, 2, 4]), "p_switch": 1 << 24}


READ_ERR = ["EIO", "EIO", "ENOMEM", "ESTALE", "EISDIR"]
WRITE_ERR = ["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPIPE"]
OPEN_ERR = ["EACCES", "EMFILE", "ENFILE", "ENOENT", "EROFS", "ENOSPC", "ENOMEM"]


def op_groups(run, outputs=("stdout",)):
    """From a fault-free probe: {(op, target): [lengths...]}; the simulator logs every operation on a tracked file."""
    g = {}
    for l in run.io():
        g.setdefault((l[2], l[3]), []).append(int(l[6]))
    return g


def pick_nth(rng, n):
    r = rng.random()
    if r < 0.3:
        return n
    if r < 0.5:
        return 1
    return rng.randint(1, n)


def hard_fault(rng, groups, ops=None):
    """One failing operation among those the probe performed."""
    keys = [k for k in sorted(groups) if k[0] in (ops or ("open", "read", "write", "mmap", "seek", "stat")) and k[1] != "stderr"]
    if not keys:
        return None
    op, t = rng.choice(keys)
    n = len(groups[(op, t)])
    err = rng.choice({"open": OPEN_ERR, "read": READ_ERR, "write": WRITE_ERR, "mmap": ["ENOMEM", "ENODEV", "EACCES", "EAGAIN"],
                      "seek": ["EINVAL", "EIO"], "stat": ["EIO", "ENOMEM", "EOVERFLOW"]}[op])
    sticky = "+" if rng.random() < 0.5 else ""
    return [op, t, "%d%s" % (pick_nth(rng, n), sticky), "err", err]


def benign_fault(rng, groups):
    keys = [k for k in sorted(groups) if k[0] in ("read", "write", "open") and k[1] != "stderr"]
    if not keys:
        return None
    op, t = rng.choice(keys)
    n = len(groups[(op, t)])
    if op != "open" and rng.random() < 0.5:
        return [op, t, "%d" % pick_nth(rng, n), "short", rng.choice([1, 2, 7, 100, 4095])]
    return [op, t, "%d" % pick_nth(rng, n), "eintr", 0]


def fault_plan(rng, probe, c, caps=("stdout",), allow_alloc=True):
    """Adds one of several kinds of fault plan to the settings c; returns its name.  'benign' plans must not make a
    tool fail; 'hard' ones may."""
    g = op_groups(probe)
    kind = rng.choice(["none", "split", "split", "benign", "hard", "hard", "hard", "cap", "cap", "mix", "alloc", "hard2"])
    if kind == "alloc" and not allow_alloc:
        kind = "hard"
    F = []
    if kind == "split":
        benign_io(rng, c)
    elif kind == "benign":
        F = [benign_fault(rng, g) for _ in range(rng.randint(1, 4))]
    elif kind == "hard":
        F = [hard_fault(rng, g)]
    elif kind == "hard2":
        F = [hard_fault(rng, g, ("write", "read", "mmap")) for _ in range(2)]
    elif kind == "mix":
        benign_io(rng, c)
        F = [hard_fault(rng, g)]
    elif kind == "cap":
        sizes = {}
        for (op, t), v in g.items():
            if op == "write" and t != "stderr":
                sizes[t] = sum(v)
        if sizes:
            t = rng.choice(sorted(sizes))
            n = sizes[t]
            r = rng.random()
            c["caps"] = [[t, 0 if r < 0.1 else n - 1 if r < 0.3 else rng.randint(0, max(0, n - 1))]]
    elif kind == "alloc":
        if rng.random() < 0.8 or probe.threads <= 1:
            c["alloc_fail"] = rng.randint(1, max(1, probe.mallocs))
        else:
            c["spawn_fail"] = rng.randint(1, probe.threads)
    F = [f for f in F if f]
    if F:
        c["faults"] = F
    return kind


HARD_ACTS = ("err", "crash", "crashafter", "torncrash", "full", "partfull")


def hard_fired(run):
    return [l for l in run.faults() if l[5] in HARD_ACTS]


# ------------------------------------------------------------------ score tables for compare
def quote(s, sep):
    return '"%s"' % s.replace('"', '""') if any(c in s for c in (sep, '"', "\n", "\r")) or s == "" else s


def short_num(v):
    return str(int(v)) if float(v).is_integer() and abs(v) < 1e15 and not (v == 0 and math.copysign(1, v) < 0) else repr(float(v))


def csv_text(header, topics, cols, order, sep, eol="\n", last=True, num=lambda v: repr(float(v))):
    rows = [sep.join(quote(h, sep) for h in header)]
    for t in order:
        rows.append(sep.join([quote(topics[t], sep)] + [num(c[t]) for c in cols]))
    return eol.join(rows) + (eol if last else "")


METRIC_NAMES = ["ap", "rr", "ndcg@10", "precision@5", "recall@20", "bpref", "f1", "success@1", "dcg@3", "ndcg@5", "ap@100", "r_precision", "hits@10", "ndcg_burges@20", "rr@10"]
ODD_NAMES = ["P@10", "AP", "Ap", "My metric", "nDCG (k=10)", "^ap$", "^.*$", "%", "system_1", "system_2", "a,b", "map_cut_10", "\u8a55\u4fa1", "mean", "Metric", "len", "a.b", "1", "0.5", "literal", "-", "'", "true"]


def tables(rng, m=None, n=None, shuffle=True, maxm=5, nm=None, wide=0.03):
    """Score tables of m systems over n topics for some metrics; all tests are well defined on them."""
    import numpy as np
    if rng.random() < wide:
        r = rng.random()
        if r < 0.7:
            m, nm, n = rng.choice([9, 10, 11, 12, 16]), 1, n or rng.choice([3, 4, 6, 12])
        else:
            nm, n = rng.choice([10, 12, 15]), n or rng.choice([3, 5, 9])
    m = m or rng.choice([1, 2, 2, 2, 3, 3, 4, maxm])
    late = not n and rng.random() < 0.02     # the first fractions stand far behind the beginning
    if late:
        n = rng.choice([110, 150, 300])
    n = n or rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 12, 20, 35, 60])
    if m > 2:
        n = max(n, 3)
    nm = nm or rng.choice([1, 1, 2, 3, 4])
    names = rng.sample(METRIC_NAMES, nm)
    head = rng.choice(["query_id", "query_id", "topic", "qid"])
    if rng.random() < 0.08:
        names = rng.sample(ODD_NAMES + METRIC_NAMES[:4], nm)
        head = rng.choice(["query_id", "Topic ID", "Query", "Key", "Score", "a,b", "^t$", "\u8a71\u984c", "1", "Value", "0.5"])
        if head in names:
            head = "qid"
    data = {}
    for nme in names:
        while True:
            X = np.array(matrix(rng, n, m, "binary" if late else None))
            if late:
                X = np.floor(X)
                for t in range(n - rng.randint(1, 5), n):
                    X[t] += rng.choice([0.5, 0.25, 0])
            if m == 1:
                break
            D = X - X.mean(axis=1, keepdims=True)
            D = D - D.mean(axis=0, keepdims=True)
            scale = max(1.0, np.abs(X).max())
            if (D ** 2).mean() > 1e-5 * scale ** 2 and (m > 2 or (X[:, 0] - X[:, 1]).var() > 1e-5 * scale ** 2):
                break
        data[nme] = X.tolist()
    return {"topics": ids(rng, n, ws=True), "head": head, "m": m, "names": names, "data": data, "late": late}


def table_files(rng, tb, tab, shuffle=True):
    """The text of each system's file; later files may hold the metrics in another order."""
    sep = "\t" if tab else ","
    n = len(tb["topics"])
    files, heads = [], []
    for j in range(tb["m"]):
        order = list(range(n))
        names = list(tb["names"])
        if shuffle and rng.random() < 0.6:
            rng.shuffle(order)
        if shuffle and j and rng.random() < 0.3:
            rng.shuffle(names)
        cols = [[tb["data"][nme][t][j] for t in range(n)] for nme in names]
        num = {} if rng.random() < 0.8 and not tb.get("late") else {"num": short_num}     # numbers without a fraction written as integers
        files.append(csv_text([tb["head"]] + names, tb["topics"], cols, order, sep, rng.choice(["\n", "\n", "\r\n"]), rng.random() < 0.85, **num))
    return files


def grain(rng, c):
    """Preemption at basic blocks of the library, too."""
    r = rng.random()
    if r < 0.75:
        c["blocks"] = 1
        c["p_block"] = int(U * 10 ** rng.uniform(-4.5, -0.7))
    return c


def fbits(x):
    import struct
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def store(rng, size="small", nq=None):
    """[[trues], [preds]] as the driver reads them."""
    T, P = rels(rng, size=size, nq=nq, ws=True)
    return [[[q, d, max(int(s), 0)] for q, d, s in T], [[q, d, fbits(float(s))] for q, d, s in P]]


def metric_any(rng):
    return rng.choice(all_metrics(rng)) if rng.random() < 0.93 else rng.choice(["nope", "ap@", "ap@x", "@5", "ap@-1", "", "AP", "ndcg@5 "])
