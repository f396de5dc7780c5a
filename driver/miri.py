"""C06: some of the cases under Miri, which sees what native runs do not: reads of uninitialized memory, misaligned or
out-of-bounds references, invalid values, aliasing that Tree Borrows forbids."""
import concurrent.futures
import json
import os
import subprocess
import tempfile
import time

from . import explore as ex
from .base import HARNESS, PROCS, TARGET, CheckError, Lock, Violation, cargo, environment, repo_hash, say, scratch

DIR = os.path.join(TARGET, "miri")
FLAGS = "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"
# Cases of which properties, how many per process, and processes in the quick and thorough tiers
PLAN = [("C07", 3, 1, 20), ("C15", 5, 1, 20), ("C12", 4, 2, 30), ("C10", 4, 1, 25), ("C06", 6, 8, 100), ("C11", 16, 1, 20), ("C21", 5, 2, 25), ("C09", 6, 1, 30), ("C19", 6, 1, 20), ("C18", 6, 1, 15)]


def env():
    e = environment()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["MIRIFLAGS"] = FLAGS
    return e


def command(*a):
    return ["cargo", "miri", "run", "--offline", "-q", "--target-dir", DIR, "--features", "plain-alloc", "--"] + list(a)


def build():
    t0 = time.time()
    with Lock("build-miri"):
        os.makedirs(DIR, exist_ok=True)
        stamp = os.path.join(DIR, "repo.stamp")
        h = repo_hash()
        old = None
        if os.path.exists(stamp):
            with open(stamp) as f:
                old = f.read()
        if old != h and old is not None:
            os.remove(stamp)
            cargo(["clean", "--offline", "--target-dir", DIR, "-p", "varlen", "-p", "varlen_macro", "-p", "vh"], 60, env())
        try:
            r = subprocess.run(command("miri", "C06", "1", "0", "0"), cwd=HARNESS, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            raise CheckError("building for Miri: out of time")
        if r.returncode:
            raise CheckError("the harness does not build for Miri:\n" + r.stderr[-3000:])
        with open(stamp, "w") as f:
            f.write(h)
    say("built miri in %.1f s" % (time.time() - t0))


def reason(err):
    """What Miri objects to, if it does."""
    for line in err.splitlines():
        if line.startswith("error: Undefined Behavior:"):
            return line[len("error: ") :].strip()
    return None


class MiriTry(ex.Try):
    def open(self):
        self.err = tempfile.TemporaryFile()
        self.why = None
        return subprocess.Popen(command("try", self.prop), cwd=HARNESS, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env(), text=True, preexec_fn=ex._pre)

    def crash(self, code):
        if self.why is None:
            self.err.seek(0)
            self.text = self.err.read().decode(errors="replace")
            self.why = reason(self.text)
        return self.why


def job(ctx, prop, start, end):
    """Runs cases start..end; returns (cases done, non-trivial ones, texts, failure)."""
    a = command("miri", prop, str(ctx.seed), str(start), str(end))
    try:
        r = subprocess.run(a, cwd=HARNESS, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=max(1, ctx.left()), preexec_fn=ex._pre)
    except subprocess.TimeoutExpired:
        raise CheckError("out of time under Miri in %s %d..%d" % (prop, start, end))
    done, nontrivial, texts, fail, last = 0, 0, [], None, start
    for line in r.stdout.splitlines():
        w = line.split(" ", 3)
        if w[0] == "case":
            last = int(w[1])
        elif w[0] == "fail" and prop == "C06" and not fail:
            fail = (last, "under Miri: " + line[5:])
        elif w[0] == "broken":
            raise CheckError("case %d of %s under Miri: %s" % (last, prop, line))
        elif w[0] == "done":
            done += 1
            nontrivial += int(w[2])
            if int(w[2]):
                texts.append(prop + w[3])
    if r.returncode:
        why = reason(r.stderr)
        if why is None:
            raise CheckError("Miri ended with %d at case %d of %s:\n%s" % (r.returncode, last, prop, r.stderr[-2000:]))
        fail = (last, why)
    elif done != end - start:
        raise CheckError("Miri did %d of %d cases of %s" % (done, end - start, prop))
    return done, nontrivial, texts, fail and (prop,) + fail


def run(ctx):
    from .programs import fingerprint

    build()
    t0 = time.time()
    jobs = []
    for prop, n, quick, thorough in PLAN:
        for k in range(thorough if ctx.tier == "thorough" else quick):
            start = (1 << 40) + k * n
            jobs.append((prop, start, start + n))
    with concurrent.futures.ThreadPoolExecutor(PROCS) as pool:
        outs = list(pool.map(lambda j: job(ctx, *j), jobs))
    ctx.rules.append("Under Miri (Tree Borrows): smaller cases of the same kinds, and of those of C07, C09, C10, C11, C12, C15, C18, C19, C21, of which only undefined behaviour counts.")
    done = sum(o[0] for o in outs)
    ctx.evaluations += done
    ctx.hashes |= {fingerprint(t) for o in outs for t in o[2]}
    ctx.parts["miri"] = {"cases": done, "nontrivial": sum(o[1] for o in outs)}
    ctx.samples += [{"build": "miri", "steps": t[:400]} for o in outs[:2] for t in o[2][:1]]
    say("miri: %d cases, %.1f s" % (done, time.time() - t0))
    fails = [o[3] for o in outs if o[3]]
    if fails:
        raise Violation(minimize(ctx, *fails[0]))


def minimize(ctx, prop, index, why):
    f = os.path.join(ctx.dir, "miri-choices")
    try:
        subprocess.run(command("rec", prop, str(ctx.seed), str(index), f), cwd=HARNESS, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        with open(f) as fh:
            choices = [int(x) for x in fh.read().split()]
    except (subprocess.TimeoutExpired, OSError, ValueError):
        raise CheckError("case %d of %s under Miri (%s): cannot be recorded" % (index, prop, why))
    t = MiriTry(None, prop)
    j = t(choices)
    t.stop()
    if not ex.bad(j):
        raise CheckError("case %d of %s under Miri (%s) does not fail again" % (index, prop, why))

    def fails(c):
        j = t(c)
        return j["choices"] if ex.bad(j) else None

    best, n = ex.shrink(choices, fails, budget=min(90.0, max(1.0, ctx.left() - 30)))
    t.stop()
    j = t(best)
    log = j["log"] if j["verdict"] == "fail" else t.text.splitlines()[:24] if t.crash(1) else []
    t.stop()
    return {"kind": "miri", "cases_of": prop, "seed": ctx.seed, "index": index, "choices": best, "message": j["message"] or why, "log": log, "shrink_attempts": n, "original_length": len(choices)}


def replay(v):
    if v["kind"] != "miri":
        return None
    build()
    t = MiriTry(None, v["cases_of"])
    j = t(v["choices"])
    say(j["verdict"], j["message"])
    for x in j["log"]:
        say("   " + x)
    if j["verdict"] == "crash":
        say(t.text)
    t.stop()
    return 1 if ex.bad(j) else 0 if j["verdict"] == "pass" else 2
