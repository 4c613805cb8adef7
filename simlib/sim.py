"""Runs one real process under the simulator and reads back its report."""
import csv, os, select, shutil, struct, subprocess

csv.field_size_limit(1 << 30)

_HEAD = struct.Struct("<9Q24Q5Q")
_MAXSW = 60000
_SWOFF = _HEAD.size
_LOGOFF = _SWOFF + _MAXSW * 16
_KINDS = ["malloc", "free", "futex_wait", "futex_wake", "sched_yield", "spawn", "join", "thread_exit", "mutex", "open",
          "read", "write", "mmap", "seek", "close", "stat", "random", "clock", "sleep", "caller_code", "basic_block"]
U32 = 1 << 32

ERRNO = {"EIO": 5, "ENOMEM": 12, "EACCES": 13, "ENOSPC": 28, "EPIPE": 32, "EROFS": 30, "EMFILE": 24, "ENFILE": 23,
         "EDQUOT": 122, "EFBIG": 27, "ENOENT": 2, "EISDIR": 21, "ENODEV": 19, "EAGAIN": 11, "EINVAL": 22, "ENOSYS": 38,
         "ESTALE": 116, "EPERM": 1, "EOVERFLOW": 75, "ETXTBSY": 26}
ERRNAME = {v: k for k, v in ERRNO.items()}
SIMPLE = ("sched_seed", "entropy_seed", "io_seed", "p_switch", "p_spurious", "p_rnd_short", "p_rnd_eintr", "p_io_short",
          "p_io_eintr", "rnd_enosys", "ncpu", "max_steps", "kill_step", "alloc_fail", "spawn_fail", "clock0", "clock_step",
          "manual", "pct", "blocks", "p_block", "pad")


class HarnessError(Exception):
    pass


class Timeout(Exception):
    pass


def conf_text(conf, root):
    o = ["root %s" % root]
    for k in SIMPLE:
        if conf.get(k) is not None:
            o.append("%s %d" % (k, int(conf[k])))
    for op, target, nth, act, arg in conf.get("faults", []):
        o.append("fault %s %s %s %s %d" % (op, target, nth, act, ERRNO[arg] if isinstance(arg, str) else arg))
    for t, n in conf.get("caps", []):
        o.append("cap %s %d" % (t, n))
    for n, off in conf.get("clock_jumps", []):
        o.append("clock_jump %d %d" % (n, off))
    for s in conf.get("pct_at", []):
        o.append("pct_at %d" % s)
    for s, t in conf.get("switches", []):
        o.append("switch %d %d" % (s, t))
    return "\n".join(o) + "\n"


class Run:
    """What one simulated process did."""
    __slots__ = ("rc", "out", "err", "steps", "switches", "threads", "sim_ns", "ev_hash", "sw_hash", "n_sw", "kinds",
                 "spurious", "timeouts", "ended", "mallocs", "random_bytes", "log", "sw")

    def faults(self):
        return [l for l in self.log if l[0] == "F"]

    def io(self):
        return [l for l in self.log if l[0] == "O"]

    def mutations(self):
        return [l for l in self.log if l[0] == "M"]

    def ident(self):
        return (self.rc, self.ev_hash, self.sw_hash, self.steps, self.sim_ns, bytes(self.out), bytes(self.err))


class Box:
    """A scratch directory: w/ is the process's world, m/ the simulator's files."""

    def __init__(self, base, tools):
        self.base = base
        self.tools = tools
        self.w = os.path.join(base, "w")
        self.m = os.path.join(base, "m")
        os.makedirs(self.m, exist_ok=True)
        self.clean()

    def clean(self):
        shutil.rmtree(self.w, ignore_errors=True)
        for d in (".tmp", ".home"):  # what the process sees as /tmp and as its home directory
            os.makedirs(os.path.join(self.w, d))

    def put(self, name, data):
        p = os.path.join(self.w, name)
        if "/" in name:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8"))

    def get(self, name):
        try:
            with open(os.path.join(self.w, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def snapshot(self):
        r = {}
        for d, ds, fs in os.walk(self.w):
            for x in fs:
                p = os.path.join(d, x)
                n = os.path.relpath(p, self.w)
                if os.path.islink(p):
                    r[n] = ("link", os.readlink(p))
                else:
                    st = os.stat(p)
                    r[n] = (open(p, "rb").read(), st.st_mode)
            for x in ds:
                r[os.path.relpath(os.path.join(d, x), self.w) + "/"] = "dir"
        return r

    def run(self, exe, args, conf, timeout=120):
        m = self.m
        with open(os.path.join(m, "conf"), "w") as f:
            f.write(conf_text(conf, self.w))
        path = self.tools[exe]
        with open(os.path.join(m, "so"), "wb") as so, open(os.path.join(m, "se"), "wb") as se:
            p = subprocess.Popen([self.tools["launcher"], "../m/conf", "../m/out", self.tools["shim"], path] + list(args),
                                 cwd=self.w, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env={})
            # Popen.wait with a timeout polls; a pidfd does not
            fd = os.pidfd_open(p.pid)
            try:
                ended = select.select([fd], [], [], timeout)[0]
            finally:
                os.close(fd)
            if not ended:
                p.kill()
                p.wait()
                raise Timeout("%s did not end within %d s of real time" % (exe, timeout))
            rc = p.wait()
        r = Run()
        r.rc = rc
        with open(os.path.join(m, "so"), "rb") as f:
            r.out = f.read()
        with open(os.path.join(m, "se"), "rb") as f:
            r.err = f.read()
        if rc == 99:
            raise HarnessError("simulator: " + r.err.decode("utf-8", "replace"))
        with open(os.path.join(m, "out"), "rb") as f:
            h = _HEAD.unpack(f.read(_HEAD.size))
            (magic, r.steps, r.switches, r.threads, r.sim_ns, r.ev_hash, r.sw_hash, r.n_sw, nlog) = h[:9]
            if magic != 0x53494D31:
                raise HarnessError("no report from the simulator (rc %d): %s" % (rc, r.err.decode("utf-8", "replace")))
            r.kinds = h[9:33]
            r.spurious, r.timeouts, r.ended, r.random_bytes, r.mallocs = h[33:38]
            d = f.read(16 * r.n_sw)
            v = struct.unpack("<%dQ" % (2 * r.n_sw), d)
            r.sw = [(v[2 * i], v[2 * i + 1]) for i in range(r.n_sw)] if r.n_sw <= 4000 else v
            f.seek(_LOGOFF)
            t = f.read(nlog).decode("utf-8", "replace")
        r.log = [tuple(l.split("\t")) for l in t.split("\n") if l.count("\t") == 6 or l[:1] == "E"]
        return r

    def switches(self, r):
        """The scripted schedule of a run, or None if it was too long to keep."""
        if r.n_sw >= _MAXSW:
            return None
        if r.n_sw <= 4000:
            return [list(x) for x in r.sw]
        return [[r.sw[2 * i], r.sw[2 * i + 1]] for i in range(r.n_sw)]


def describe_log(l):
    if len(l) != 7:
        return " ".join(l)
    tag, step, op, target, n, act, arg = l
    if act == "err":
        arg = ERRNAME.get(int(arg), arg)
    return "step %s: %s %s#%s %s %s" % (step, op, target, n, act, arg)
