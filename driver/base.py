"""Paths, building, child processes."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
REPLAYS = os.path.join(VERIF, "work", "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
PROCS = 8


class CheckError(Exception):
    """The check cannot give an answer."""


class Violation(Exception):
    """The property does not hold; carries what the replay file holds."""

    def __init__(self, data):
        super().__init__(data.get("message", ""))
        self.data = data


def environment():
    e = dict(os.environ)
    cargo = "/root/.cargo/bin"
    if cargo not in e.get("PATH", "").split(":"):
        e["PATH"] = cargo + ":" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.pop("CARGO_TARGET_DIR", None)
    for k in list(e):
        if k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTDOCFLAGS") or k.startswith("CARGO_PROFILE_") or k == "CARGO_INCREMENTAL":
            del e[k]
    return e


def say(*a):
    print(*a, flush=True)


def repo_hash():
    """Hash of everything in /repo that the build reads."""
    h = hashlib.sha256()
    for top in ("Cargo.toml", "varlen", "varlen_macro"):
        p = os.path.join(REPO, top)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            try:
                with open(f, "rb") as fh:
                    b = fh.read()
            except OSError:
                continue
            h.update(f.encode() + b"\0" + str(len(b)).encode() + b"\0" + b)
    return h.hexdigest()


class Lock:
    """Checks that run side by side build one after the other."""

    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


ARTIFACTS = {}


def artifacts(profile):
    """The libraries of the last build: paths of vh and varlen, and where their dependencies are."""
    a = ARTIFACTS[profile]
    if not all(x in a for x in ("varlen", "bumpalo")):
        raise CheckError("cargo did not say where the libraries are")
    return a


def build_library():
    """Only the library, for the programs that use nothing else."""
    build("dev", what=("-p", "varlen", "-p", "bumpalo"))


def cargo(args, timeout, env=None, cwd=HARNESS):
    e = environment()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    if env:
        e.update(env)
    try:
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("cargo " + " ".join(args) + ": out of time")
    return r


def build(profile, target=TARGET, features=None, env=None, extra=None, what=("--lib", "--bins"), timeout=700):
    """Builds the harness against the working tree of /repo; returns the directory of the result."""
    t0 = time.time()
    with Lock("build-" + profile):
        os.makedirs(target, exist_ok=True)
        stamp = os.path.join(target, "repo-" + profile + ".stamp")
        h = repo_hash()
        old = None
        if os.path.exists(stamp):
            with open(stamp) as f:
                old = f.read()
        if old != h:
            # Do not depend on modification times.
            if old is not None:
                os.remove(stamp)
            a = ["clean", "--offline", "--target-dir", target]
            for p in ("varlen", "varlen_macro", "vh"):
                a += ["-p", p]
            if profile == "release":
                a.append("--release")
            cargo(a, 60, env)
        a = ["build", "--offline"] + list(what) + ["--target-dir", target, "-q", "--message-format=json-render-diagnostics"]
        if profile == "release":
            a.append("--release")
        if features:
            a += ["--features", features]
        r = cargo(a + (extra or []), timeout, env)
        if r.returncode != 0:
            raise CheckError("%s does not build:\n%s" % ("the library" if "-p" in what else "the harness", r.stdout[-3000:]))
        found = {"deps": os.path.join(target, "release" if profile == "release" else "debug", "deps")}
        for line in r.stdout.splitlines():
            if line.startswith("{"):
                j = json.loads(line)
                if j.get("reason") == "compiler-artifact" and j["target"]["name"] in ("vh", "varlen", "bumpalo"):
                    for x in j["filenames"]:
                        if x.endswith(".rlib"):
                            found[j["target"]["name"]] = x
        ARTIFACTS[profile] = found
        with open(stamp, "w") as f:
            f.write(h)
    say("built %s in %.1f s" % ("the library" if "-p" in what else profile, time.time() - t0))
    return os.path.join(target, "release" if profile == "release" else "debug")


def scratch(name):
    d = os.path.join(WORK, "%s-%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def signame(n):
    import signal

    try:
        return signal.Signals(n).name
    except ValueError:
        return "signal %d" % n
