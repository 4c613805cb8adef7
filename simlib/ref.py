"""Reference models: small, independent, executable statements of what the tools must compute."""
import itertools, json, math, re
from fractions import Fraction
import numpy as np
from scipy import stats as st

WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
_SPLIT = re.compile("[" + WS + "]+")
_INT = re.compile(r"[+-]?[0-9]+\Z")
_FLT = re.compile(r"[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?\Z")
_NONFIN = re.compile(r"[+-]?(?:inf|infinity|nan)\Z", re.I)


class Bad(Exception):
    """The input is not well-formed."""


def skey(s):
    return s.encode("utf-8", "surrogatepass")


def lines_of(data):
    """How a text file splits into lines: at \\n, a \\r before it dropped; invalid UTF-8 is an error."""
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        raise Bad("not UTF-8")
    ls = text.split("\n")
    if ls and ls[-1] == "":
        last = ls.pop()
    else:
        last = None
    n = len(ls)
    r = []
    for i, l in enumerate(ls):
        terminated = not (i == n - 1 and last is None)
        r.append(l[:-1] if terminated and l.endswith("\r") else l)
    return r


def trec_line(line, kind):
    cols = [c for c in _SPLIT.split(line) if c]
    if kind == "true":
        if len(cols) < 4 or not _INT.match(cols[3]):
            raise Bad(line)
        v = int(cols[3])
        if not -2**31 <= v < 2**31:
            raise Bad(line)
        return cols[0], cols[2], max(v, 0)
    if len(cols) < 5:
        raise Bad(line)
    if _FLT.match(cols[4]):
        return cols[0], cols[2], float(cols[4])
    if _NONFIN.match(cols[4]):
        return cols[0], cols[2], float(cols[4].lower())
    raise Bad(line)


def records(triples):
    """Sorted judgements: query, then descending score, then document; duplicates are an error."""
    seen = {}
    for q, d, s in triples:
        m = seen.setdefault(q, {})
        if d in m:
            raise Bad("duplicate %r %r" % (q, d))
        m[d] = s
    return [(q, d, s) for q in sorted(seen, key=skey) for d, s in sorted(seen[q].items(), key=lambda x: (-x[1], skey(x[0])))]


def trec(data, kind):
    return records(trec_line(l, kind) for l in lines_of(data))


# ------------------------------------------------------------------ JSON lines (what serde accepts for the record type)
def _pairs(ps):
    return ("obj", ps)


def _noconst(x):
    raise Bad("constant " + x)


class _Int(int):
    pass


def _int(s):
    if s == "-0":
        return -0.0
    return int(s)


def json_line(line, kind):
    if re.search("[\ud800-\udfff]", line):
        raise Bad("surrogate")
    try:
        v = json.loads(line, object_pairs_hook=_pairs, parse_constant=_noconst, parse_int=_int)
    except RecursionError:
        raise Bad("nesting")
    except ValueError as e:
        raise Bad(str(e))
    if line[:1] == "\ufeff":
        raise Bad("BOM")

    def text(x):
        if not isinstance(x, str) or re.search("[\ud800-\udfff]", x):
            raise Bad("not a string")
        return x

    def score(x):
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            raise Bad("not a number")
        if kind == "true":
            if isinstance(x, float) or not 0 <= x < 2**32:
                raise Bad("not a relevance")
            return x
        x = float(x)
        if math.isinf(x):
            raise Bad("out of range")
        return x
    if isinstance(v, tuple):
        d = {}
        for k, x in v[1]:
            if k in d and k in ("query_id", "doc_id", "score"):
                raise Bad("duplicate field")
            d[k] = x
        if any(k not in d for k in ("query_id", "doc_id", "score")):
            raise Bad("missing field")
        return text(d["query_id"]), text(d["doc_id"]), score(d["score"])
    if isinstance(v, list) and len(v) == 3:
        return text(v[0]), text(v[1]), score(v[2])
    raise Bad("not a record")


def jsonl(data, kind):
    return records(json_line(l, kind) for l in lines_of(data))


def to_jsonl(recs):
    return "".join(json.dumps({"query_id": q, "doc_id": d, "score": s}, ensure_ascii=False) + "\n" for q, d, s in recs)


# ------------------------------------------------------------------ metrics
METRICS = ("hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "ndcg", "dcg_burges", "ndcg_burges")
NO_K = ("r_precision", "bpref")
DEFAULT_METRICS = (["success@%d" % k for k in (1, 5, 10)] + ["recall@%d" % k for k in (5, 10, 15, 20)] +
                   ["precision@%d" % k for k in (5, 10, 15, 20)] + ["ap@%d" % k for k in (5, 10, 15, 20)] + ["ap", "rr"] +
                   ["ndcg@%d" % k for k in (5, 10, 15, 20)])


def split_metric(name):
    if "@" in name:
        a, k = name.split("@")
        k = int(k)
    else:
        a, k = name, 0
    return a, (0 if a in NO_K else k)


def canon_metric(name):
    a, k = split_metric(name)
    return a if k == 0 else "%s@%d" % (a, k)


def _pow2(e):
    return math.inf if e > 1023 else math.ldexp(1.0, e) if e > -1080 else 0.0


def metric(name, judged, ranking):
    """judged: doc -> relevance; ranking: documents, best first.  The published definitions."""
    a, k = split_metric(name)
    top = ranking if k == 0 else ranking[:k]
    rel = [judged.get(d, 0) for d in top]
    bins = [r > 0 for r in rel]
    R = sum(1 for r in judged.values() if r > 0)
    hits = sum(bins)
    size = len(ranking) if k == 0 else k
    prec = hits / size if size else 0.0
    rec = hits / R if R else 0.0
    if a == "hits":
        return float(hits)
    if a == "success":
        return 1.0 if hits else 0.0
    if a == "precision":
        return prec
    if a == "recall":
        return rec
    if a == "f1":
        return 2 * prec * rec / (prec + rec) if prec + rec > 0 else 0.0
    if a == "r_precision":
        return sum(1 for d in ranking[:R] if judged.get(d, 0) > 0) / R if R else 0.0
    if a == "ap":
        if not R:
            return 0.0
        s = n = 0
        for i, b in enumerate(bins):
            if b:
                n += 1
                s += n / (i + 1)
        return s / R
    if a == "rr":
        for i, b in enumerate(bins):
            if b:
                return 1.0 / (i + 1)
        return 0.0
    if a == "bpref":
        if not R:
            return 0.0
        N = len(judged) - R
        bad, s = 0, 0.0
        for d in ranking:
            if d in judged:
                if judged[d] > 0:
                    s += 1.0 if bad == 0 else 1.0 - min(bad, R) / min(N, R)
                else:
                    bad += 1
        return s / R
    # Burges' gains relative to the highest one in the normalised metric: they may exceed the range of a double
    top_gain = max(judged.values(), default=0) if a == "ndcg_burges" else 0
    gain = (lambda r: float(r)) if a in ("dcg", "ndcg") else (lambda r: _pow2(r - top_gain) - _pow2(-top_gain))
    dcg = sum(gain(r) / math.log2(i + 2) for i, r in enumerate(rel))
    if a.startswith("dcg"):
        return dcg
    ideal = sorted(judged.values(), reverse=True)
    ideal = ideal if k == 0 else ideal[:k]
    if k == 0:
        ideal = sorted(judged.values(), reverse=True)
    idcg = sum(gain(r) / math.log2(i + 2) for i, r in enumerate(ideal))
    return dcg / idcg if idcg > 0 else 1.0


def evaluate(trues, preds, names):
    """trues, preds: records.  Returns metric -> {query: score} or raises Bad for a query without judgements."""
    J, Rk = {}, {}
    for q, d, s in trues:
        J.setdefault(q, {})[d] = s
    for q, d, s in preds:
        Rk.setdefault(q, []).append(d)
    for q in Rk:
        if q not in J:
            raise Bad("no judgements for %r" % q)
    return {m: {q: metric(m, J[q], Rk[q]) for q in Rk} for m in names}


# ------------------------------------------------------------------ statistics
def ttest(x, y):
    d = np.asarray(x, float) - np.asarray(y, float)
    n = len(d)
    m, v = d.mean(), d.var(ddof=1)
    t = m / math.sqrt(v / n)
    return dict(mean=m, var=v, es=m / math.sqrt(v), t=t, p=2 * st.t.sf(abs(t), n - 1), n=n)


def t_moe(v, n, dof, alpha):
    return st.t.ppf(1 - alpha / 2, dof) * math.sqrt(v / n)


def anova(X):
    X = np.asarray(X, float)
    n, m = X.shape
    g = X.mean()
    sm, tm = X.mean(axis=0), X.mean(axis=1)
    A = n * ((sm - g) ** 2).sum()
    Bv = m * ((tm - g) ** 2).sum()
    E = ((X - sm[None, :] - tm[:, None] + g) ** 2).sum()
    fa, fb, fe = m - 1, n - 1, (m - 1) * (n - 1)
    va, vb, ve = A / fa, Bv / fb, E / fe
    return dict(sm=sm, tm=tm, A=A, B=Bv, E=E, va=va, vb=vb, ve=ve, fa=va / ve, fb=vb / ve,
                pa=st.f.sf(va / ve, fa, fe), pb=st.f.sf(vb / ve, fb, fe), dof=(fa, fb, fe), n=n, m=m)


# ------------------------------------------------------------------ exact distributions of the randomised tests
def _perms(m):
    return np.array(list(itertools.permutations(range(m))))


def rthsd_exact(X, limit=400000):
    """For every pair, [lower, upper] of P(max-min of permuted means >= |difference|), ties decided both ways within
    rounding; None if the enumeration is too large.  Dynamic over topics: all vectors of permuted sums."""
    X = np.asarray(X, float)
    n, m = X.shape
    if math.factorial(m) ** (n - 1) > limit:
        return None
    # permuting the systems of all topics alike changes nothing: keep the first topic as it is
    sums = X[:1, :].copy()
    # a code for each permuted column of scores
    V = np.unique(X, return_inverse=True)[1].reshape(X.shape).astype(np.uint64)
    codes = V[:1, :].copy()
    P = _perms(m)
    for i in range(1, n):
        sums = (sums[:, None, :] + X[i][P][None, :, :]).reshape(-1, m)
        codes = (codes[:, None, :] * np.uint64(0x9E3779B97F4A7C15) + V[i][P][None, :, :]).reshape(-1, m)
    d = (sums.max(axis=1) - sums.min(axis=1)) / n
    return _bounds(X, d, codes)


def _bounds(X, d, codes=None):
    """Where a permutation has, in some order, the very columns of the two systems, its range is at least their
    difference however the means are rounded: such ties count for sure.  (codes[0] is the matrix as it is.)"""
    means = X.mean(axis=0)
    m = X.shape[1]
    tol = 1e-9 * (1 + np.abs(X).max())
    lo, hi = np.ones((m, m)), np.ones((m, m))
    for i in range(m):
        for j in range(i + 1, m):
            o = abs(means[i] - means[j])
            sure = d >= o + tol
            if codes is not None:
                sure |= (codes == codes[0, i]).any(axis=1) & (codes == codes[0, j]).any(axis=1)
            lo[i, j] = lo[j, i] = sure.mean()
            hi[i, j] = hi[j, i] = (d >= o - tol).mean()
    return lo, hi


def rthsd_mc(X, N, seed):
    X = np.asarray(X, float)
    n, m = X.shape
    rng = np.random.default_rng(seed)
    out = []
    while N > 0:
        c = min(N, 20000)
        Y = rng.permuted(np.broadcast_to(X, (c, n, m)).copy(), axis=2)
        s = Y.mean(axis=1)
        out.append(s.max(axis=1) - s.min(axis=1))
        N -= c
    return _bounds(X, np.concatenate(out))


def exact_sums(d):
    """Are the mean of d, the centred values and their multiples exact in floating point, in this order of
    the values?  Only then is the zero variance of a resample of equal values free of rounding (finding R04-rounded-zero
    in known-findings.txt)."""
    f = [Fraction(float(v)) for v in d]
    n = len(f)
    mean = sum(f) / n
    if mean.denominator & (mean.denominator - 1):
        return False
    run = 0.0
    for i, v in enumerate(d):
        run += (float(v) - run) / (i + 1)
    if Fraction(run) != mean:
        # a running mean is rounded on the way; the centred values then have too many digits
        return False
    c = [v - mean for v in f]
    g = max(v.denominator for v in f + [mean])
    return max(sum(abs(v) for v in f), n * max(abs(v) for v in c)) * g < 2**53


def exact_t(d):
    """If the values, centred or not, are multiples of the least common multiple of 1..n (times a power of two), then
    every running mean and every running sum of squares of them is exact: the values and the centred ones as integers,
    so that equal t-statistics are known to be equal; else None."""
    f = [Fraction(float(v)) for v in d]
    n = len(f)
    c = [v - sum(f) / n for v in f]
    den = max(v.denominator for v in f + c)
    if den & (den - 1) or n > 20:
        return None
    L = math.lcm(*range(1, n + 1))
    f, c = [int(v * den) for v in f], [int(v * den) for v in c]
    two = L & -L
    L //= two
    if any(v % L for v in f + c):
        return None
    if max(map(abs, f + c)) ** 2 * n ** 3 * two ** 2 >= 2**52:
        return None
    return np.array(f), np.array(c)


def _boot_t(C, scale, exact):
    """|t| of each resample; which have no variance; which have none but for rounding."""
    n = C.shape[1]
    m = C.mean(axis=1)
    v = C.var(axis=1, ddof=1)
    w = C.max(axis=1) - C.min(axis=1)
    with np.errstate(divide="ignore", invalid="ignore"):
        t = np.abs(m) / np.sqrt(v / n)
    if not exact:
        return t, np.zeros(len(w), bool), w <= 1e-11 * scale
    return t, w == 0, (w > 0) & (w <= 1e-11 * scale)


def _ties(f, C):
    """Resamples whose t-statistic is exactly that of f, up to the sign."""
    n = len(f)
    S, Q = C.sum(axis=1), (C * C).sum(axis=1)
    S0, Q0 = f.sum(), (f * f).sum()
    if S0 == 0:
        return np.ones(len(C), bool)
    return (np.abs(S) == abs(S0)) & (n * Q - S * S == n * Q0 - S0 * S0)


def _boot_bounds(t, const, vague, t0, sure):
    # a resample without variance has no t-statistic: it counts as zero (never extreme, unless the observed one is
    # zero); where its values differ by rounding alone, either answer is possible
    tol = 1e-9 * (1 + t0)
    with np.errstate(invalid="ignore"):
        lo = (np.where(const, 0.0 >= t0 + tol, np.where(vague, False, t >= t0 + tol)) | sure).mean()
        hi = np.where(const, 0.0 >= t0 - tol, np.where(vague, True, t >= t0 - tol)).mean()
    return lo, hi, const.mean(), sure.mean()


def _boot(x, y, batches):
    d = np.asarray(x, float) - np.asarray(y, float)
    n = len(d)
    c = d - d.mean()
    scale = np.abs(np.asarray(x, float)).max() + np.abs(np.asarray(y, float)).max()
    ex, xt = exact_sums(d), exact_t(d)
    out = []
    for idx in batches:
        r = _boot_t(c[idx], scale, ex)
        out.append(r + ((_ties(xt[0], xt[1][idx]) if xt else np.zeros(len(idx), bool)),))
    t, const, vague, sure = (np.concatenate(v) for v in zip(*out))
    return _boot_bounds(t, const, vague, abs(d.mean()) / math.sqrt(d.var(ddof=1) / n), sure)


def boot_exact(x, y, limit=300000):
    n = len(x)
    if n ** n > limit:
        return None
    return _boot(x, y, [np.array(list(itertools.product(range(n), repeat=n)))])


def boot_mc(x, y, N, seed):
    n = len(x)
    rng = np.random.default_rng(seed)

    def batches(N):
        while N > 0:
            k = min(N, 20000)
            yield rng.integers(0, n, size=(k, n))
            N -= k
    return _boot(x, y, batches(N))


def binom_ok(k, B, lo, hi, N=None, eps=1e-13):
    """Could k of B come from a probability in [lo, hi]?  N: the bounds are themselves estimates from N samples."""
    if N:
        lo = st.beta.ppf(eps, lo * N, N - lo * N + 1) if lo > 0 else 0.0
        hi = st.beta.ppf(1 - eps, hi * N + 1, N - hi * N) if hi < 1 else 1.0
    return st.binom.sf(k - 1, B, hi) > eps and st.binom.cdf(k, B, lo) > eps
