"""Reads and judges the report of the compare tool."""
import math
import numpy as np
from . import ref as R


def parse(out, mode):
    """[(title, rows of cells)], the first row being the header."""
    text = out.decode("utf-8")
    if not text.endswith("\n"):
        raise ValueError("the report is cut off: %r" % text[-60:])
    secs = []
    for l in text.split("\n"):
        if l.startswith("# ") or l.startswith("## "):
            secs.append((l.lstrip("#").strip(), []))
        elif l == "":
            continue
        elif not secs:
            raise ValueError("line %r before any section" % l)
        elif mode == "raw":
            secs[-1][1].append([c.strip() for c in l.split("\t")])
        elif l.startswith("|") and l.endswith("|"):
            secs[-1][1].append([c.strip() for c in l[1:-1].split("|")])
        elif not set(l) <= set("+-="):
            raise ValueError("line %r in a table" % l)
    return secs


class Want:
    """Checks cells one after another."""

    def __init__(self, secs):
        self.secs, self.i = secs, 0

    def sec(self, title, header, n):
        if self.i >= len(self.secs):
            raise ValueError("the report lacks %r" % title)
        t, rows = self.secs[self.i]
        self.i += 1
        if t != title:
            raise ValueError("section %r instead of %r" % (t, title))
        if header is None:
            if rows:
                raise ValueError("unexpected table under %r" % t)
            return []
        if not rows or rows[0] != header:
            raise ValueError("%s: header %r instead of %r" % (title, rows[:1], header))
        if len(rows) != n + 1 or any(len(r) != len(header) for r in rows):
            raise ValueError("%s: %d rows instead of %d, or ragged" % (title, len(rows) - 1, n))
        return rows[1:]

    def end(self):
        if self.i != len(self.secs):
            raise ValueError("unexpected section %r" % self.secs[self.i][0])


def num(cell, v, where, rel=1e-7):
    try:
        x = float(cell)
        ok = len(cell.split(".")[1]) == 4
    except (ValueError, IndexError):
        ok, x = False, None
    if not ok or abs(x - v) > 0.5e-4 + 1e-7 + rel * abs(v):
        raise ValueError("%s is %r instead of %.6f" % (where, cell, v))


def text(cell, v, where):
    if cell != v:
        raise ValueError("%s is %r instead of %r" % (where, cell, v))


def pval(cell, B, bounds, where, N=None):
    try:
        x = float(cell)
    except ValueError:
        raise ValueError("%s is %r" % (where, cell))
    k = round(x * B)
    if not 0 <= x <= 1 or abs(x - k / B) > 0.5e-4 + 1e-9:
        raise ValueError("%s is %r, which is no multiple of 1/%d in [0,1]" % (where, cell, B))
    if not 0 <= k <= B:
        raise ValueError("%s is %r" % (where, cell))
    # the count is known up to the rounding of the printed value
    ks = [q for q in range(max(0, math.ceil((x - 0.5e-4) * B - 1e-6)), min(B, math.floor((x + 0.5e-4) * B + 1e-6)) + 1)]
    if bounds is not None and not any(R.binom_ok(q, B, float(bounds[0]), float(bounds[1]), N) for q in (ks[0], ks[-1], k)):
        raise ValueError("%s is %r, impossible for a probability in [%.5f, %.5f] and %d repetitions" % (where, cell, bounds[0], bounds[1], B))


_memo = {}


def boot_bounds(x, y):
    k = ("b", tuple(x), tuple(y))
    if k not in _memo:
        b = R.boot_exact(x, y, 60000)
        _memo[k] = (b[:2], None) if b is not None else (R.boot_mc(x, y, 20000, 7)[:2], 20000)
    return _memo[k]


def rthsd_bounds(X):
    k = ("r", X.shape, X.tobytes())
    if k not in _memo:
        b = R.rthsd_exact(X, 60000)
        _memo[k] = (b, None) if b is not None else (R.rthsd_mc(X, 20000, 7), 20000)
    if len(_memo) > 400:
        v = _memo[k]
        _memo.clear()
        _memo[k] = v
    return _memo[k]


def check(out, mode, paths, metrics, X, n_resamples, n_iters, n_topics, n_metrics):
    """metrics: the common metrics in the order of the first file; X: metric -> topics x systems array."""
    m = len(paths)
    w = Want(parse(out, mode))
    rows = w.sec("Basic statistics", ["Key", "Value"], 3)
    for r, e in zip(rows, [("n_systems", m), ("n_topics", n_topics), ("n_metrics", n_metrics)]):
        text(r[0], e[0], "key")
        text(r[1], str(e[1]), e[0])
    if m == 1:
        for r, k in zip(w.sec("Means", ["Metric", "Score"], len(metrics)), metrics):
            text(r[0], k, "metric")
            num(r[1], X[k][:, 0].mean(), "mean of " + k)
        return w.end()
    for j, r in enumerate(w.sec("Alias", ["Alias", "Path"], m)):
        text(r[0], "System_%d" % (j + 1), "alias")
        text(r[1], paths[j], "path")
    S = ["System_%d" % (j + 1) for j in range(m)]
    if m == 2:
        for r, k in zip(w.sec("Means", ["Metric"] + S, len(metrics)), metrics):
            text(r[0], k, "metric")
            for j in range(2):
                num(r[1 + j], X[k][:, j].mean(), "mean of %s" % k)
        rows = w.sec("Two-sided paired Student's t-test for (System_1 - System_2)", ["Metric", "Mean", "Var", "ES", "t-stat", "p-value", "95% MOE"], len(metrics))
        for r, k in zip(rows, metrics):
            t = R.ttest(X[k][:, 0], X[k][:, 1])
            text(r[0], k, "metric")
            for c, name, v in zip(r[1:], ("mean difference", "variance", "effect size", "t statistic", "t-test p-value", "margin of error"),
                                  (t["mean"], t["var"], t["es"], t["t"], t["p"], R.t_moe(t["var"], t["n"], t["n"] - 1, 0.05))):
                num(c, v, "%s of %s" % (name, k))
        rows = w.sec("Two-sided paired Bootstrap test (n_resamples = %d)" % n_resamples, ["Metric", "p-value"], len(metrics))
        for r, k in zip(rows, metrics):
            text(r[0], k, "metric")
            b, N = boot_bounds(X[k][:, 0], X[k][:, 1])
            pval(r[1], n_resamples, b, "bootstrap p-value of " + k, N)
        rows = w.sec("Fisher's randomized test (n_iters = %d)" % n_iters, ["Metric", "p-value"], len(metrics))
        for r, k in zip(rows, metrics):
            text(r[0], k, "metric")
            b, N = rthsd_bounds(X[k])
            pval(r[1], n_iters, (b[0][0, 1], b[1][0, 1]), "Fisher p-value of " + k, N)
        return w.end()
    for k in metrics:
        w.sec(k, None, 0)
        A = R.anova(X[k])
        moe = R.t_moe(A["ve"], A["n"], A["dof"][2], 0.05)
        for j, r in enumerate(w.sec("System means", ["System", "Mean", "95% MOE"], m)):
            text(r[0], S[j], "system")
            num(r[1], A["sm"][j], "mean of %s in %s" % (S[j], k))
            num(r[2], moe, "margin of error of %s" % k)
        rows = w.sec("Two-way ANOVA without replication", ["Factor", "Variation", "DF", "Variance", "F-stat", "p-value"], 3)
        for r, e in zip(rows, [("Between-systems", A["A"], A["dof"][0], A["va"], A["fa"], A["pa"]), ("Between-topics", A["B"], A["dof"][1], A["vb"], A["fb"], A["pb"]),
                               ("Residual", A["E"], A["dof"][2], A["ve"], None, None)]):
            text(r[0], e[0], "factor")
            text(r[2], str(e[2]), "degrees of freedom")
            for c, name, v in ((r[1], "variation", e[1]), (r[3], "variance", e[3]), (r[4], "F", e[4]), (r[5], "p-value", e[5])):
                if v is None:
                    text(c, "", "%s %s" % (e[0], name))
                else:
                    num(c, v, "%s %s of %s" % (e[0], name, k))
        rows = w.sec("Effect sizes for Tukey HSD test", ["ES"] + S, m)
        sd = math.sqrt(A["ve"])
        for i, r in enumerate(rows):
            text(r[0], S[i], "system")
            for j in range(m):
                num(r[1 + j], (A["sm"][i] - A["sm"][j]) / sd, "effect size of %s, %s in %s" % (S[i], S[j], k))
        rows = w.sec("p-values for randomized Tukey HSD test (n_iters = %d)" % n_iters, ["p-value"] + S, m)
        b, N = rthsd_bounds(X[k])
        for i, r in enumerate(rows):
            text(r[0], S[i], "system")
            for j in range(m):
                text(r[1 + j], rows[j][1 + i], "mirrored p-value")
                if i == j:
                    text(r[1 + j], "1.0000", "p-value on the diagonal")
                else:
                    pval(r[1 + j], n_iters, (b[0][i, j], b[1][i, j]), "p-value of %s, %s in %s" % (S[i], S[j], k), N)
    w.end()
