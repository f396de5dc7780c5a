"""C14, C15: freshly generated struct definitions, compiled and put through the harness."""
import concurrent.futures
import json
import os
import random
import subprocess
import time

from . import defs
from . import explore as ex
from .base import PROCS, CheckError, Violation, artifacts, build, build_library, environment, say, scratch
from .programs import fingerprint, violation
from .rustc import ask, ask_all

# property: (crates, structs per crate, cases per crate) for the quick and thorough tiers
PLAN = {
    "C14": {"quick": (8, 6, 400), "thorough": (48, 8, 3000)},
    "C15": {"quick": (8, 12, 4000), "thorough": (48, 16, 40000)},
}


# Definitions that only have to be accepted: quick, thorough.
ACCEPT = {"quick": 480, "thorough": 9600}
PER_FILE = 12


def accepted(ctx):
    """C14: definitions in the documented language compile."""
    from . import definitions

    n = ACCEPT[ctx.tier] if not ctx.cases else ctx.cases
    build_library()
    t0 = time.time()
    ds = []
    while len(ds) < n:
        r = random.Random("accept %d %d" % (ctx.seed, len(ds)))
        ds += defs.catalog(r, PER_FILE)
    files = [ds[k : k + PER_FILE] for k in range(0, len(ds), PER_FILE)]

    def text(group):
        return definitions.HEAD + defs.OUTER + "\n".join("mod k%d {\nuse super::*;\n%s%s\n}\n%s" % (k, d.context, d.decl(), "pub use k%d::%s;" % (k, d.concrete) if d.vis == "pub " else "") for k, d in enumerate(group)) + "\n"

    answers = ask_all([text(g) for g in files], ctx.dir, "acc")
    ctx.evaluations += len(ds)
    ctx.hashes |= {fingerprint(d.decl()) for d in ds}
    ctx.parts["accepted definitions"] = {"definitions": len(ds), "generic": sum(bool(d.generics) for d in ds)}
    say("accepted: %d definitions, %.1f s" % (len(ds), time.time() - t0))
    for g, a in zip(files, answers):
        if a.accepted:
            continue
        # One that does not need the others, if there is one.
        simple = [d for d in g if not d.via and "::Kind" not in d.decl() and "WHICH" not in d.decl() and d.context == defs.INNER]
        alone = [definitions.Program("supported", definitions.listing(d)[0], expect="accepted") for d in simple]
        for d, p, b in zip(simple, alone, ask_all([p.text() for p in alone], ctx.dir, "alone")):
            if not b.accepted and not any(e.concrete in p.text() for e in g if e is not d):
                raise definitions.smallest(ctx, p, b)
        for d in g:
            # One that does not need the others.
            if any(e.concrete in d.decl() for e in g if e is not d):
                continue
            b = ask(text([d]), os.path.join(ctx.dir, "accy.rs"))
            if not b.accepted:
                raise violation("a definition in the documented language is rejected", text([d]), "accepted", b)
        while len(g) > 1:
            # The first one that is wrong needs some of those before it.
            b = ask(text(g[:-1]), os.path.join(ctx.dir, "accz.rs"))
            if b.accepted:
                break
            g, a = g[:-1], b
        raise violation("a definition in the documented language is rejected", text(g), "accepted", a)


def compile_program(text, src, out, timeout=600, profile="dev"):
    with open(src, "w") as f:
        f.write(text)
    a = artifacts(profile)
    mode = ["-C", "debug-assertions=on", "-C", "codegen-units=4"] if profile == "dev" else ["-C", "opt-level=3"]
    cmd = ["rustc", "--edition", "2021", "--crate-type", "bin"] + mode + [ "--error-format=json", "-o", out, src, "-L", "dependency=" + a["deps"], "--extern", "vh=" + a["vh"], "--extern", "varlen=" + a["varlen"]]
    e = environment()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("compiling %s: out of time" % src)
    if r.returncode == 0:
        return None
    errors = []
    for line in r.stderr.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("level") == "error":
            errors.append((j["message"], [s["line_start"] for s in j["spans"] if s["is_primary"]], (j["rendered"] or "")[:600]))
    if r.returncode != 1 or not errors:
        raise CheckError("rustc ended with %d on %s: %s" % (r.returncode, src, r.stderr[-1500:]))
    return errors


def one(ctx, k, count, cases, ctl):
    r = random.Random("%s %d %d" % (ctx.prop, ctx.seed, k))
    ds = defs.catalog(r, count, ctl)
    text = defs.program(ds, types=ctx.prop == "C14", settings=ctx.prop == "C15")
    src = os.path.join(ctx.dir, "gen%d.rs" % k)
    out = os.path.join(ctx.dir, "gen%d" % k)
    errors = compile_program(text, src, out)
    if errors:
        return ds, {"kind": "definition", "message": "a definition in the documented language is rejected: " + errors[0][0], "log": [x for e in errors[:3] for x in e[2].splitlines()], "source": text}, None, None
    part = ex.Part(ctx.dir, 1000 + k, k << 32, (k << 32) + cases)
    j, crash = ex.run_part(out, ctx.prop, ctx.seed, part, ctx.deadline)
    f = None
    if crash:
        f = {"index": crash[0], "kind": "crash", "message": "crashes with " + crash[1], "choices": None, "start": part.start}
    elif j["fail"]:
        f = dict(j["fail"], start=part.start)
        if f["kind"] == "broken":
            raise CheckError("generated crate %d: case %d: %s\n%s" % (k, f["index"], f["message"], "\n".join(f["log"])))
    if f:
        # Kept apart, because the directory is shared.
        d = dict(ctx_minimize(ctx, out, f), source=text)
        d["kind"] = "generated"
        d["generated_kind"] = "cases" if "choices" in d else "range"
        return ds, d, j, part
    try:
        os.remove(out)
    except OSError:
        pass
    return ds, None, j, part


def ctx_minimize(ctx, worker, f):
    from .stages import minimize

    return minimize(ctx, worker, "dev", ctx.prop, f)


def run(ctx):
    crates, count, cases = PLAN[ctx.prop][ctx.tier]
    if ctx.cases:
        cases = max(1, ctx.cases // crates)
    build("dev")
    t0 = time.time()
    res = ex.Results()
    with concurrent.futures.ThreadPoolExecutor(PROCS) as pool:
        outs = list(pool.map(lambda k: one(ctx, k, count, cases, ctx.prop == "C15"), range(crates)))
    total = {"norm": 0, "ctl": 0, "var": 0, "arr": 0}
    n = generics = 0
    bad = None
    for ds, v, j, part in outs:
        n += len(ds)
        for d in ds:
            generics += bool(d.generics)
            for f in d.fields:
                total[f.kind] += 1
        if j:
            res.add(part, j)
        bad = bad or v
    from .stages import absorb

    ctx.rules.append("Generated definitions: random fields (roles, types, order, visibilities, attributes, nesting, generic over types, associated types, lifetimes and constants) and length expressions over the controlling fields, with the lengths also computed by the model.")
    absorb(ctx, "generated definitions", res, cases)
    ctx.parts["generated definitions"].update(definitions=n, crates=crates, generic_definitions=generics, fields=total)
    ctx.samples.append({"definition": outs[0][0][0].decl()})
    say("generated: %d definitions, %d cases, %.1f s" % (n, res.evaluations, time.time() - t0))
    if bad:
        raise Violation(bad)


def replay(v):
    if v["kind"] not in ("generated", "definition"):
        return None
    build("dev")
    d = scratch("replay")
    out = os.path.join(d, "gen")
    errors = compile_program(v["source"], os.path.join(d, "gen.rs"), out)
    if errors:
        for e in errors[:3]:
            say(e[2])
        return 1 if v["kind"] == "definition" else 2
    if v["kind"] == "definition":
        return 0
    if "choices" in v:
        t = ex.Try(out, v["cases_of"])
        j = t(v["choices"])
        t.stop()
        say(j["verdict"], j["message"])
        for x in j["log"]:
            say("   " + x)
        return 1 if ex.bad(j) else 0 if j["verdict"] == "pass" else 2
    r, crash = ex.run_part(out, v["cases_of"], v["seed"], ex.Part(d, 0, v["start"], v["end"]), time.time() + 800)
    say(crash or r["fail"])
    return 1 if crash or r["fail"] else 0
