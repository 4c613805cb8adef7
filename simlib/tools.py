"""Shared by the properties of the command-line tools: files in scenarios, shrinking, small helpers."""
import base64, copy, json
from .core import Violation
from . import gen as G


def pack(text):
    """A file as it stands in a scenario: its lines (the last one unterminated), or base64 if it is not UTF-8."""
    if isinstance(text, bytes):
        try:
            text = text.decode("utf-8")
        except UnicodeDecodeError:
            return {"b64": base64.b64encode(text).decode()}
    return text.split("\n")


def unpack(f):
    return base64.b64decode(f["b64"]) if isinstance(f, dict) else "\n".join(f).encode("utf-8")


def cuts(L, keep=0):
    """Lists with a chunk of L removed, large chunks first."""
    n = len(L)
    c = n // 2
    while c >= 1:
        i = 0
        while i < n:
            if n - min(c, n - i) >= keep:
                yield L[:i] + L[i + c:]
            i += c
        c //= 2


def edit(scn, path, value):
    s = copy.deepcopy(scn)
    d = s
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = value
    return s


def shrink_file(scn, path, keep=0):
    d = scn
    for k in path:
        d = d[k]
    if isinstance(d, dict):
        raw = base64.b64decode(d["b64"])
        if len(raw) < 3000:
            for c in cuts(list(raw), keep):
                yield edit(scn, path, pack(bytes(c)))
        return
    for c in cuts(d, keep):
        yield edit(scn, path, c)


DROP = ("p_spurious", "p_io_short", "p_io_eintr", "p_rnd_short", "p_rnd_eintr", "rnd_enosys", "clock_jumps", "clock_step", "clock0", "pad", "pct", "pct_at",
        "io_seed", "caps", "alloc_fail", "spawn_fail", "kill_step")


def shrink_conf(scn, path):
    """Simpler simulator settings: fewer faults, no noise, the default schedule, fewer scripted switches."""
    c = scn
    for k in path:
        c = c[k]
    if c.get("faults"):
        for f in cuts(c["faults"]):
            yield edit(scn, path + ["faults"], f)
    for k in DROP:
        if k in c and c[k]:
            d = {x: y for x, y in c.items() if x != k}
            yield edit(scn, path, d)
    if c.get("p_switch") and "manual" not in c:
        d = {x: y for x, y in c.items() if x not in ("p_switch", "pct", "pct_at")}
        d["manual"] = 1
        yield edit(scn, path, d)
    if c.get("ncpu", 1) != 1:
        yield edit(scn, path + ["ncpu"], 1)
    if c.get("switches"):
        for s in cuts(c["switches"]):
            yield edit(scn, path + ["switches"], s)
    for i, f in enumerate(c.get("faults", [])):
        if str(f[2]).endswith("+"):
            yield edit(scn, path + ["faults", i], [f[0], f[1], f[2][:-1], f[3], f[4]])


def shrink_list(scn, path, keep=1):
    d = scn
    for k in path:
        d = d[k]
    for c in cuts(d, keep):
        yield edit(scn, path, c)


def excused(r):
    """A run that a real fault hit may fail."""
    return bool(G.hard_fired(r)) or r.rc == -9


def errtext(r, n=400):
    return r.err.decode("utf-8", "replace")[-n:]


def fail_text(exe, r):
    from .sim import describe_log
    return "%s exited with %d; faults: %s; stderr: %s" % (exe, r.rc, [describe_log(l) for l in r.faults()][:6], errtext(r))


def first_diff(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else None
        y = lb[i] if i < len(lb) else None
        if x != y:
            return "line %d: %r instead of %r" % (i + 1, x[:200] if x is not None else "end", y[:200] if y is not None else "end")
    return "same"
