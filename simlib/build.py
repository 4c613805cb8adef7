"""Builds the simulator, the real tools and the driver from /repo's current tree (cached, locked)."""
import fcntl, glob, hashlib, os, shutil, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
TARGET = os.environ.get("SIM_TARGET", os.path.join(VERIF, "target"))
TOOLS = ("convert", "evaluate", "compare")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            del e[k]
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"), RUSTUP_TOOLCHAIN="stable",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_INCREMENTAL="false")
    return e


def _run(cmd, cwd, **env):
    p = subprocess.run(cmd, cwd=cwd, env=dict(_env(), **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def source_hash():
    h = hashlib.sha256(open(os.path.join(VERIF, "simlib", "rustc-wrap"), "rb").read())
    for top in ("Cargo.toml", "src", "elinor-cli"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build(tools=True, driver=True):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        shim = os.path.join(TARGET, "libsim.so")
        launcher = os.path.join(TARGET, "simrun")
        for src, out, flags in (("sim.c", shim, ["-fPIC", "-shared", "-ldl", "-lpthread"]), ("simrun.c", launcher, [])):
            s = os.path.join(VERIF, "shim", src)
            cmd = ["gcc", "-O2", "-g", "-Wall", "-Wno-unused-function", "-Wno-nonnull-compare", "-fno-builtin"]
            key = hashlib.sha256(open(s, "rb").read() + repr(cmd).encode()).hexdigest()
            if not os.path.exists(out) or not os.path.exists(out + ".key") or open(out + ".key").read() != key:
                _run(cmd + ["-o", out + ".new", s] + flags, VERIF)
                os.replace(out + ".new", out)
                with open(out + ".key", "w") as f:
                    f.write(key)
        # Never trust file times to notice a change of /repo: forget what was built from another tree.
        stamp, now = os.path.join(TARGET, ".source"), REPO + " " + source_hash()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            for pat in ("debug/.fingerprint/elinor*", "driver/debug/.fingerprint/elinor*", "driver/debug/.fingerprint/simdriver*"):
                for d in glob.glob(os.path.join(TARGET, pat)):
                    shutil.rmtree(d)
            for b in glob.glob(os.path.join(TARGET, "debug", "elinor-*")) + [os.path.join(TARGET, "driver", "debug", "simdriver")]:
                if os.path.isfile(b):
                    os.remove(b)
            with open(stamp, "w") as f:
                f.write(now)
        res = {"shim": shim, "launcher": launcher}
        if tools:
            _run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--workspace",
                  "--features", "elinor/serde", "--bins", "--target-dir", TARGET,
                  "--config", "profile.dev.package.elinor.opt-level=2",
                  "--config", "profile.dev.package.rand.opt-level=2",
                  "--config", "profile.dev.package.rand_chacha.opt-level=2",
                  "--config", "profile.dev.package.rand_core.opt-level=2"], REPO)
            for t in TOOLS:
                res[t] = os.path.join(TARGET, "debug", "elinor-" + t)
        if driver:
            h = os.path.join(VERIF, "harness")
            if REPO != "/repo":  # only for trials on scratch copies
                h2 = os.path.join(TARGET, "harness-src")
                shutil.rmtree(h2, ignore_errors=True)
                shutil.copytree(h, h2)
                t = open(os.path.join(h2, "Cargo.toml")).read().replace('path = "/repo"', 'path = "%s"' % REPO)
                open(os.path.join(h2, "Cargo.toml"), "w").write(t)
                h = h2
            lock0 = open(os.path.join(h, "Cargo.lock")).read()
            try:
                _run(["cargo", "build", "--offline", "--manifest-path", os.path.join(h, "Cargo.toml"),
                      "--target-dir", os.path.join(TARGET, "driver")], h, RUSTC_WRAPPER=os.path.join(VERIF, "simlib", "rustc-wrap"))
            finally:
                if open(os.path.join(h, "Cargo.lock")).read() != lock0:
                    open(os.path.join(h, "Cargo.lock"), "w").write(lock0)
            res["driver"] = os.path.join(TARGET, "driver", "debug", "simdriver")
        return res


if __name__ == "__main__":
    print(build())
