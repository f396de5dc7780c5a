"""Running ranges of cases, attributing crashes, shrinking."""
import concurrent.futures
import json
import os
import signal
import subprocess
import time

from .base import CheckError, PROCS, environment, signame, say

# What a process that broke memory dies of. Everything else (SIGKILL, SIGXCPU, ...) says nothing.
CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS)


# A panic outside of a case's own code: the harness found its own memory damaged. Like a crash, it
# counts only if it happens again.
DAMAGED = 101


def crash_of(rc):
    if rc == DAMAGED:
        return "its own data damaged"
    if rc < 0 and -rc in CRASHES:
        return signame(-rc)
    return None


def _pre():
    import resource

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Part:
    def __init__(self, d, k, start, end):
        b = os.path.join(d, "%d" % k)
        self.start, self.end = start, end
        self.progress, self.out, self.hashes, self.digests, self.err = (b + x for x in (".progress", ".out", ".hashes", ".digests", ".err"))


def run_part(worker, prop, seed, part, deadline):
    """Returns (result, crash): the worker's report, or the index and signal it crashed with."""
    for f in (part.progress, part.out):
        if os.path.exists(f):
            os.remove(f)
    a = [worker, "run", prop, str(seed), str(part.start), str(part.end), part.progress, part.out, part.hashes, part.digests]
    with open(part.err, "wb") as err:
        try:
            r = subprocess.run(a, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=environment(), timeout=max(1, deadline - time.time()), preexec_fn=_pre)
        except subprocess.TimeoutExpired:
            i = _index(part.progress)
            raise CheckError("out of time while running case %s of %s" % (i, prop))
    if r.returncode == 0:
        with open(part.out) as f:
            return json.load(f), None
    if crash_of(r.returncode):
        return None, (_index(part.progress), crash_of(r.returncode))
    with open(part.err, "rb") as f:
        e = f.read()[-2000:].decode(errors="replace")
    raise CheckError("worker ended with %d at case %s of %s: %s" % (r.returncode, _index(part.progress), prop, e))


def _index(p):
    try:
        with open(p, "rb") as f:
            return int.from_bytes(f.read(8), "little")
    except OSError:
        return None


class Results:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.longest = 0
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self.parts = []
        self.fail = None  # {"index", "kind", "message", "choices" or None}

    def add(self, part, j):
        self.evaluations += j["evaluations"]
        self.nontrivial += j["nontrivial"]
        self.longest = max(self.longest, j["longest"])
        for k, v in j["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        with open(part.hashes, "rb") as f:
            b = f.read()
        self.hashes.update(b[i : i + 8] for i in range(0, len(b), 8))
        self.samples += j["samples"]


def split(start, end, n):
    size = -(-(end - start) // n)
    return [(a, min(a + size, end)) for a in range(start, end, size)]


def explore(worker, prop, seed, start, end, d, deadline):
    """Runs cases start..end. A crash or failure of a part ends that part only."""
    parts = [Part(d, k, a, b) for k, (a, b) in enumerate(split(start, end, PROCS))]
    res = Results()
    res.parts = parts
    fails = []
    with concurrent.futures.ThreadPoolExecutor(PROCS) as ex:
        outs = list(ex.map(lambda p: run_part(worker, prop, seed, p, deadline), parts))
    for p, (j, crash) in zip(parts, outs):
        if crash:
            i, sig = crash
            if i is None:
                raise CheckError("worker crashed before its first case")
            fails.append({"index": i, "kind": "crash", "message": "crashes with " + sig, "choices": None, "start": p.start})
            res.evaluations += i - p.start + 1
        else:
            res.add(p, j)
            if j["fail"]:
                f = dict(j["fail"])
                f["start"] = p.start
                fails.append(f)
    real = [f for f in fails if f["kind"] != "broken"]
    if real:
        res.fail = min(real, key=lambda f: f["index"])
    elif fails:
        f = fails[0]
        raise CheckError("case %d of %s: %s\n%s" % (f["index"], prop, f["message"], "\n".join(f["log"])))
    return res


class Try:
    """A process that evaluates lists of choices. It is replaced after every failure."""

    def __init__(self, worker, prop, timeout=60):
        self.worker, self.prop, self.timeout, self.p = worker, prop, timeout, None

    def start(self):
        self.p = self.open()

    def open(self):
        return subprocess.Popen([self.worker, "try", self.prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=environment(), text=True, preexec_fn=_pre)

    def crash(self, code):
        return crash_of(code)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def __call__(self, choices):
        if self.p is None:
            self.start()
        import select

        try:
            self.p.stdin.write(" ".join(map(str, choices)) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
        if not r:
            self.stop()
            return {"verdict": "hang", "message": "out of time", "choices": list(choices), "digest": None, "log": []}
        line = self.p.stdout.readline()
        if not line.endswith("\n"):
            self.p.wait()
            c = self.p.returncode
            self.stop()
            if self.crash(c):
                return {"verdict": "crash", "message": "crashes with " + self.crash(c), "choices": list(choices), "digest": None, "log": []}
            return {"verdict": "broken", "message": "ended with %d" % c, "choices": list(choices), "digest": None, "log": []}
        j = json.loads(line)
        j["choices"] = [int(x) for x in j["choices"].split()]
        if j["verdict"] != "pass":
            self.stop()
        return j


def bad(j):
    return j["verdict"] in ("fail", "crash")


def choices_of(worker, prop, seed, index, d):
    """The choices of a case that crashes."""
    f = os.path.join(d, "choices")
    try:
        subprocess.run([worker, "rec", prop, str(seed), str(index), f], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=environment(), timeout=120, preexec_fn=_pre)
    except subprocess.TimeoutExpired:
        return None
    if not os.path.exists(f):
        return None
    with open(f) as fh:
        return [int(x) for x in fh.read().split()]


def trace(worker, prop, choices):
    """The steps of a case, as far as it gets."""
    try:
        r = subprocess.run([worker, "try", prop], input=(" ".join(map(str, choices)) + "\n").encode(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(environment(), VH_TRACE="1"), timeout=60, preexec_fn=_pre)
    except subprocess.TimeoutExpired:
        return []
    return [x[2:] for x in r.stderr.decode(errors="replace").splitlines() if x.startswith("@ ")][-40:]


def shrink(choices, fails, budget=45.0, attempts=4000):
    """Minimizes a failing list of choices. `fails(c)` gives the canonical choices, or None."""
    end = time.time() + budget
    n = [0]

    def t(c):
        if n[0] >= attempts or time.time() > end:
            return None
        n[0] += 1
        return fails(c)

    best = list(choices)
    while True:
        before = list(best)
        # Remove chunks.
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                c = best[:i] + best[i + size :]
                r = t(c)
                if r is not None and (len(r), r) < (len(best), best):
                    best = r
                else:
                    i += size
            size //= 2
        # Zero chunks, then lower single values.
        size = 8
        while size >= 1:
            for i in range(0, len(best), size):
                if any(best[i : i + size]):
                    c = best[:i] + [0] * len(best[i : i + size]) + best[i + size :]
                    r = t(c)
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, hi = 0, best[i]
            while lo + 1 < hi and hi - lo > 1:
                mid = (lo + hi) // 2
                if i >= len(best):
                    break
                r = t(best[:i] + [mid] + best[i + 1 :])
                if r is not None and (len(r), r) < (len(best), best):
                    best = r
                    hi = mid
                else:
                    lo = mid
        if best == before or time.time() > end or n[0] >= attempts:
            return best, n[0]
