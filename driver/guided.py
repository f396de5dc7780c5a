"""Thorough tiers: coverage-guided exploration of the same cases with libFuzzer, for C06 also with AddressSanitizer."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import time

from . import explore as ex
from .base import PROCS, TARGET, VERIF, CheckError, Lock, Violation, environment, repo_hash, say, scratch
from .base import build as build_worker

CRATE = os.path.join(VERIF, "fuzz")
COVERAGE = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares --cfg fuzzing"
TRIPLE = "x86_64-unknown-linux-gnu"
# Runs per process
RUNS = {"C01": 60_000, "C07": 60_000, "C08": 60_000, "C09": 20_000, "C11": 80_000, "C15": 30_000, "C18": 40_000, "C19": 30_000, "C20": 10_000}
DEFAULT_RUNS = 10_000
ADDRESS_RUNS = 6_000


def build(address=False):
    t0 = time.time()
    d = os.path.join(TARGET, "asan" if address else "fuzz")
    e = environment()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["RUSTFLAGS"] = COVERAGE + (" -Zsanitizer=address" if address else "")
    with Lock("build-guided"):
        os.makedirs(d, exist_ok=True)
        stamp = os.path.join(d, "repo.stamp")
        h = repo_hash()
        old = None
        if os.path.exists(stamp):
            with open(stamp) as f:
                old = f.read()
        common = ["--offline", "--release", "--target", TRIPLE, "--target-dir", d]
        if old != h and old is not None:
            os.remove(stamp)
            subprocess.run(["cargo", "clean"] + common + ["-p", "varlen", "-p", "varlen_macro", "-p", "vh"], cwd=CRATE, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        try:
            r = subprocess.run(["cargo", "build", "-q"] + common + (["--features", "plain-alloc"] if address else []), cwd=CRATE, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            raise CheckError("building for libFuzzer: out of time")
        if r.returncode:
            raise CheckError("the harness does not build for libFuzzer:\n" + r.stderr[-3000:])
        with open(stamp, "w") as f:
            f.write(h)
    say("built for libFuzzer%s in %.1f s" % (" with AddressSanitizer" if address else "", time.time() - t0))
    return os.path.join(d, TRIPLE, "release", "guided")


def env(prop):
    return dict(environment(), VH_PROP=prop, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:symbolize=0")


def one(ctx, exe, k, runs):
    """Returns (runs, coverage, inputs kept, the bytes that fail or None, what was printed)."""
    d = os.path.join(ctx.dir, "guided%d" % k)
    os.makedirs(d)
    a = [exe, "-runs=%d" % runs, "-seed=%d" % (ctx.seed * 1000 + k + 1), "-max_len=600", "-len_control=20", "-timeout=120", "-rss_limit_mb=3500", "-print_final_stats=1", "-artifact_prefix=" + d + "/"]
    try:
        r = subprocess.run(a, cwd=d, env=env(ctx.prop), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=max(1, ctx.left()), preexec_fn=ex._pre)
    except subprocess.TimeoutExpired:
        raise CheckError("out of time in libFuzzer")
    m = re.findall(r"^#\d+\s.*cov: (\d+) .*corp: (\d+)", r.stderr, re.M)
    cov, corp = (int(x) for x in m[-1]) if m else (0, 0)
    n = re.search(r"stat::number_of_executed_units: (\d+)", r.stderr)
    n = int(n.group(1)) if n else 0
    bad = None
    if r.returncode:
        fs = [f for f in os.listdir(d) if f.startswith("crash-")]
        if not fs:
            raise CheckError("libFuzzer ended with %d: %s" % (r.returncode, r.stderr[-1500:]))
        with open(os.path.join(d, fs[0]), "rb") as f:
            bad = f.read()
    elif n < runs:
        raise CheckError("libFuzzer did %d of %d runs" % (n, runs))
    shutil.rmtree(d)
    return n, cov, corp, bad, r.stderr


def choices_of(ctx, exe, data):
    f, c = os.path.join(ctx.dir, "guided-input"), os.path.join(ctx.dir, "guided-choices")
    with open(f, "wb") as fh:
        fh.write(data)
    e = env(ctx.prop)
    e["VH_REC"] = c
    subprocess.run([exe, f], cwd=ctx.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200, preexec_fn=ex._pre)
    with open(c) as fh:
        return [int(x) for x in fh.read().split()]


def stage(ctx, address):
    exe = build(address)
    t0 = time.time()
    runs = ADDRESS_RUNS if address else RUNS.get(ctx.prop, DEFAULT_RUNS)
    with concurrent.futures.ThreadPoolExecutor(PROCS) as pool:
        outs = list(pool.map(lambda k: one(ctx, exe, k, runs), range(PROCS)))
    n = sum(o[0] for o in outs)
    name = "coverage-guided" + (" with AddressSanitizer" if address else "")
    ctx.evaluations += n
    ctx.parts[name] = {"runs": n, "edges_covered": max(o[1] for o in outs), "inputs_kept": [o[2] for o in outs]}
    say("%s: %d runs, %.1f s" % (name, n, time.time() - t0))
    for _, _, _, bad, text in outs:
        if bad is not None:
            found(ctx, exe, address, bad, text)


def found(ctx, exe, address, data, text):
    from .stages import minimize_choices

    choices = choices_of(ctx, exe, data)
    for profile in ("dev", "release"):
        w = os.path.join(build_worker(profile), "worker")
        t = ex.Try(w, ctx.prop)
        j = t(choices)
        t.stop()
        if ex.bad(j):
            raise Violation(minimize_choices(ctx, w, profile, ctx.prop, choices, j["message"]))
    # Only with this instrumentation.
    again = subprocess.run([exe, os.path.join(ctx.dir, "guided-input")], cwd=ctx.dir, env=env(ctx.prop), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=200, preexec_fn=ex._pre)
    m = re.search(r"ERROR: AddressSanitizer: .*", again.stderr)
    if not again.returncode or not (address and m):
        raise CheckError("libFuzzer found an input that does not fail otherwise:\n" + text[-1500:])
    raise Violation({"kind": "guided", "cases_of": ctx.prop, "choices": choices, "data": list(data), "message": m.group(0), "log": again.stderr.splitlines()[:30]})


def run(ctx):
    if ctx.prop not in ("C13", "C20"):
        # Their allocations are not their own under libFuzzer.
        stage(ctx, False)
    if ctx.prop == "C06":
        stage(ctx, True)


def replay(v):
    if v["kind"] != "guided":
        return None
    exe = build(True)
    d = scratch("replay")
    f = os.path.join(d, "input")
    with open(f, "wb") as fh:
        fh.write(bytes(v["data"]))
    r = subprocess.run([exe, f], cwd=d, env=env(v["cases_of"]), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=200)
    say(r.stderr[-3000:])
    return 1 if r.returncode else 0
