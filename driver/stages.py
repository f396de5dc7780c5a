"""The stages that decide each property."""
import concurrent.futures
import json
import os
import time

from . import explore as ex
from .base import CheckError, Violation, build, say, scratch
from .props import CASES

ASSUMPTIONS = [
    "The Rust compiler, the standard library and bumpalo behave as documented.",
    "The oracle is the plain model in harness/src (values, lists, sizes), written from the documentation, not from the code.",
    "x86-64 Linux, 64-bit pointers, one thread.",
]


class Context:
    def __init__(self, prop, tier, seed, deadline, d, cases):
        self.prop, self.tier, self.seed, self.deadline, self.dir, self.cases = prop, tier, seed, deadline, d, cases
        self.evaluations = 0
        self.hashes = set()
        self.samples = []
        self.rules = []
        self.parts = {}

    def coverage(self):
        return {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.hashes),
            "rule": " ".join(self.rules) or "nothing was run",
            "samples": self.samples[:12],
            "stages": self.parts,
        }

    def left(self):
        return self.deadline - time.time()


def count(ctx, plain=False):
    q, td, tr = CASES[ctx.prop][:3]
    if ctx.cases:
        return ctx.cases
    if ctx.tier == "quick":
        return q
    return tr if plain else td


def run(ctx):
    from . import known, programs, threads, visibility

    p = ctx.prop
    if p in CASES:
        ctx.rules.append(CASES[p][3])
    if p == "C22":
        return profiles(ctx)
    if p in ("C16", "C17"):
        return programs.run(ctx)
    if p == "C23":
        return visibility.run(ctx)
    if p == "C24":
        return threads.run(ctx)
    if p not in CASES:
        raise CheckError("no such property")
    # Meanwhile, the other build.
    plain = concurrent.futures.ThreadPoolExecutor(1).submit(build, "release")
    try:
        main_stages(ctx, p)
    finally:
        concurrent.futures.wait([plain])
    plain.result()
    known.run(ctx)
    # Some of it in the plain build too, for what only optimized code does.
    cases(ctx, "release", n=None if ctx.tier == "thorough" else count(ctx))
    if ctx.tier == "thorough":
        from . import guided

        guided.run(ctx)


def main_stages(ctx, p):
    from . import generated

    if p == "C14":
        generated.accepted(ctx)
    cases(ctx, "dev")
    if p == "C06":
        from . import miri

        miri.run(ctx)
    if p in ("C14", "C15"):
        generated.run(ctx)


def absorb(ctx, name, res, n):
    ctx.evaluations += res.evaluations
    before = len(ctx.hashes)
    ctx.hashes |= res.hashes
    ctx.samples += [dict(s, build=name) for s in res.samples[:6]]
    ctx.parts[name] = {
        "cases": res.evaluations,
        "nontrivial": res.nontrivial,
        "new_distinct_nontrivial": len(ctx.hashes) - before,
        "longest_choice_list": res.longest,
        "labels": dict(sorted(res.labels.items())),
    }


def cases(ctx, profile, worker=None, name=None, prop=None, n=None):
    prop = prop or ctx.prop
    name = name or ("checked build" if profile == "dev" else "plain build")
    if worker is None:
        worker = os.path.join(build(profile), "worker")
    n = n or count(ctx, profile == "release")
    t0 = time.time()
    # Other cases than those of the checked build.
    start = 0 if profile == "dev" else 1 << 32
    res = ex.explore(worker, prop, ctx.seed, start, start + n, ctx.dir, ctx.deadline)
    absorb(ctx, name, res, n)
    say("%s: %d cases, %.1f s" % (name, res.evaluations, time.time() - t0))
    if res.fail:
        raise Violation(minimize(ctx, worker, profile, prop, res.fail))


def minimize(ctx, worker, profile, prop, f):
    """A minimal reproduction of a failure."""
    t = ex.Try(worker, prop)
    choices = f["choices"]
    if choices is None:
        choices = ex.choices_of(worker, prop, ctx.seed, f["index"], ctx.dir)
    else:
        choices = [int(x) for x in choices.split()]
    data = {
        "kind": "cases",
        "build": profile,
        "cases_of": prop,
        "seed": ctx.seed,
        "index": f["index"],
        "message": f["message"],
        "log": f.get("log", []),
    }
    if choices is None or not ex.bad(t(choices)):
        # It needs the cases before it.
        part = ex.Part(ctx.dir, 99, f["start"], f["index"] + 1)
        for _ in range(3):
            j, crash = ex.run_part(worker, prop, ctx.seed, part, ctx.deadline)
            if crash or (j["fail"] and j["fail"]["kind"] == "fail"):
                data["kind"] = "range"
                data["start"], data["end"] = part.start, part.end
                return data
        raise CheckError("case %d of %s failed (%s), but does not fail again" % (f["index"], prop, f["message"]))

    t.stop()
    return minimize_choices(ctx, worker, profile, prop, choices, data["message"], data)


def minimize_choices(ctx, worker, profile, prop, choices, message, data=None):
    data = data or {"kind": "cases", "build": profile, "cases_of": prop, "seed": ctx.seed, "message": message, "log": []}
    t = ex.Try(worker, prop)

    def fails(c):
        j = t(c)
        return j["choices"] if ex.bad(j) else None

    best, n = ex.shrink(choices, fails, budget=min(45.0, max(1.0, ctx.left() - 20)))
    t.stop()
    j = t(best)
    t.stop()
    if not ex.bad(j):
        best = choices
        j = t(best)
        t.stop()
    data.update(choices=best, message=j["message"] or data["message"], log=j["log"], shrink_attempts=n, original_length=len(choices))
    if j["verdict"] == "crash":
        data["log"] = ex.trace(worker, prop, best) + ["(here it crashes)"]
    return data


def profiles(ctx):
    """C22: the same cases in both builds."""
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        list(pool.map(build, ("dev", "release")))
    dev = os.path.join(build("dev"), "worker")
    rel = os.path.join(build("release"), "worker")
    n = count(ctx)
    end = n
    start = 0
    skips = 0
    todo = [(0, n)]
    while todo:
        start, end = todo.pop()
        parts = [ex.Part(ctx.dir, k, a, b) for k, (a, b) in enumerate(ex.split(start, end, ex.PROCS))]
        parts2 = [ex.Part(ctx.dir, 100 + k, a, b) for k, (a, b) in enumerate(ex.split(start, end, ex.PROCS))]
        with concurrent.futures.ThreadPoolExecutor(ex.PROCS) as pool:
            a = list(pool.map(lambda p: ex.run_part(dev, "C22", ctx.seed, p, ctx.deadline), parts))
            b = list(pool.map(lambda p: ex.run_part(rel, "C22", ctx.seed, p, ctx.deadline), parts2))
        differ = []
        ra, rb = ex.Results(), ex.Results()
        for p, q, (ja, ca), (jb, cb) in zip(parts, parts2, a, b):
            if ca or cb:
                ia = ca[0] if ca else None
                ib = cb[0] if cb else None
                if ia == ib:
                    # Crashes in both: not a difference. Go on after it.
                    skips += 1
                    if skips > 20:
                        raise CheckError("too many cases crash in both builds")
                    if p.start < ia:
                        todo.append((p.start, ia))
                    if ia + 1 < p.end:
                        todo.append((ia + 1, p.end))
                    continue
                differ.append(min(x for x in (ia, ib) if x is not None))
                continue
            for j in (ja, jb):
                if j["fail"]:
                    raise CheckError("case %d of C22: %s" % (j["fail"]["index"], j["fail"]["message"]))
            with open(p.digests, "rb") as f:
                da = f.read()
            with open(q.digests, "rb") as f:
                db = f.read()
            if len(da) != len(db) or len(da) != 8 * (p.end - p.start):
                raise CheckError("digests are incomplete")
            if da != db:
                differ.append(next(p.start + k // 8 for k in range(0, len(da), 8) if da[k : k + 8] != db[k : k + 8]))
            ra.add(p, ja)
            rb.add(q, jb)
        absorb(ctx, "both builds", ra, n)
        if differ:
            raise Violation(difference(ctx, dev, rel, min(differ)))


def difference(ctx, dev, rel, index):
    cs = [ex.choices_of(w, "C22", ctx.seed, index, ctx.dir) for w in (dev, rel)]
    cs = [c for c in cs if c is not None]
    ta, tb = ex.Try(dev, "C22"), ex.Try(rel, "C22")

    def outcome(t, c):
        j = t(c)
        if j["verdict"] in ("broken", "hang"):
            return None
        return ("crash", j["message"]) if j["verdict"] == "crash" else ("ok", j["digest"])

    def fails(c):
        a, b = outcome(ta, c), outcome(tb, c)
        return list(c) if a is not None and b is not None and a != b else None

    for c in cs:
        if fails(c):
            break
    else:
        raise CheckError("case %d of C22 differed between the builds, but does not differ again" % index)
    best, n = ex.shrink(c, fails, budget=min(60.0, max(1.0, ctx.left() - 20)))
    a, b = ta(best), tb(best)
    ta.stop()
    tb.stop()
    return {
        "kind": "profiles",
        "seed": ctx.seed,
        "index": index,
        "choices": best,
        "message": "the checked and the plain build observe different results",
        "log": ["checked: " + x for x in a["log"] or [a["message"]]] + ["plain: " + x for x in b["log"] or [b["message"]]],
        "shrink_attempts": n,
    }


def setup():
    """Builds what the checks build, so that they have less to do."""
    from . import miri

    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        list(pool.map(build, ("dev", "release")))
    miri.build()
    return 0


def replay(path):
    """Runs a recorded violation again. Exit 1: it is still there."""
    with open(path) as f:
        v = json.load(f)
    k = v["kind"]
    if k == "cases":
        w = os.path.join(build(v["build"]), "worker")
        t = ex.Try(w, v["cases_of"])
        j = t(v["choices"])
        t.stop()
        say(j["verdict"], j["message"])
        for x in j["log"]:
            say("   " + x)
        return 1 if ex.bad(j) else 0 if j["verdict"] == "pass" else 2
    if k == "range":
        w = os.path.join(build(v["build"]), "worker")
        d = scratch("replay")
        r, crash = ex.run_part(w, v["cases_of"], v["seed"], ex.Part(d, 0, v["start"], v["end"]), time.time() + 800)
        say(crash or r["fail"])
        return 1 if crash or r["fail"] else 0
    if k == "profiles":
        out = []
        for p in ("dev", "release"):
            t = ex.Try(os.path.join(build(p), "worker"), "C22")
            j = t(v["choices"])
            t.stop()
            say(p, j["verdict"], j["message"], j["digest"], *j["log"])
            out.append((j["verdict"] == "crash", j["digest"]))
        return 1 if out[0] != out[1] else 0
    from . import generated, guided, known, miri, programs, visibility

    for m in (programs, generated, miri, guided, visibility, known):
        if hasattr(m, "replay"):
            r = m.replay(v)
            if r is not None:
                return r
    say("unknown kind of violation")
    return 2
