"""C16, C17: what the compiler accepts.

Generated programs are given to the compiler. The oracle is how they were generated: a program is made either to
follow the rules of the library, or to break exactly one of them."""
import concurrent.futures
import hashlib
import os
import random
import time

from . import misuse
from .base import CheckError, Violation, build_library, say, scratch
from .rustc import ask, ask_all

# property: pairs of programs for the quick and thorough tiers
PAIRS = {"C17": (900, 12_000)}
BATCH = 400


def fingerprint(text):
    return int.from_bytes(hashlib.blake2b(text.encode(), digest_size=8).digest(), "little")


def wrong(expect, answer):
    """What is wrong with an answer, if anything."""
    if expect == "rejected":
        if answer.accepted:
            return "is accepted"
    elif expect == "accepted":
        if not answer.accepted:
            return "is rejected: " + answer.summary()
    if answer.panicked:
        return "makes the macro panic: " + answer.summary()
    return None


def violation(message, text, expect, answer):
    return Violation({
        "kind": "program",
        "message": message,
        "expect": expect,
        "source": text,
        "log": text.splitlines()[:30] + ["--"] + ([l for _, _, m in answer.errors[:2] for l in m.splitlines()] or ["(no error)"]),
    })


def misuses(ctx):
    n = ctx.cases or PAIRS["C17"][ctx.tier == "thorough"]
    r = random.Random("C17 %d" % ctx.seed)
    t0 = time.time()
    labels, kinds = {}, {}
    done = 0
    deck = misuse.Decks()
    ctx.rules.append(
        "A case is a pair of programs without unsafe code over randomly generated types (strings, arrays, fixed-length, tuples, newtypes and structs made by the macros, nested) and places (boxes, arenas, sequences, drained elements, fields): "
        "one misuses an object in one way (moves, swaps, copies or replaces its header; changes what controls its layout; keeps a reference while its storage may move or go away; lets it outlive its storage; widens or swaps lifetimes; drops it by hand; calls an unsafe operation; touches private parts), the other differs only in not doing so. "
        "The first has to be rejected by the compiler, the second accepted. Non-trivial: all pairs; distinct by text of the misuse."
    )
    while done < n:
        ps = misuse.pairs(r, min(BATCH, n - done), deck)
        done += len(ps)
        answers = ask_all([p[2] for p in ps] + [p[3] for p in ps], ctx.dir, "m")
        for k, (kind, label, bad, good) in enumerate(ps):
            ctx.evaluations += 1
            ctx.hashes.add(fingerprint(bad))
            labels[label] = labels.get(label, 0) + 1
            kinds[kind] = kinds.get(kind, 0) + 1
            if len(ctx.samples) < 8 and k % 97 == 5:
                ctx.samples.append({"misuse": label, "rejected_because": answers[k].summary()[:200], "program": bad.splitlines()[-4:]})
        for k, (kind, label, bad, good) in enumerate(ps):
            for text, expect, a in ((bad, "rejected", answers[k]), (good, "accepted", answers[len(ps) + k])):
                w = wrong(expect, a)
                if w:
                    ctx.parts["programs"] = {"pairs": done, "kinds": kinds}
                    raise smallest(ctx, kind, label, text, expect, a, w)
    ctx.parts["programs"] = {"pairs": done, "kinds": kinds, "different_misuses": len(labels)}
    say("programs: %d pairs, %d different misuses, %.1f s" % (done, len(labels), time.time() - t0))


def smallest(ctx, kind, label, text, expect, answer, w):
    """The smallest program that is wrong in this way, among the given one and freshly generated ones."""
    name = "a misuse (%s)" % label if expect == "rejected" else "the correct neighbour of a misuse (%s)" % label
    best = (len(text), text, answer, w)
    r = random.Random("smaller")
    more = []
    for _ in range(12):
        more += [(p[2] if expect == "rejected" else p[3]) for p in misuse.pairs(r, 200, misuse.Decks()) if p[0] == kind and p[1] == label]
    more = sorted(set(more), key=len)[:24]
    for t, a in zip(more, ask_all(more, ctx.dir, "s")):
        w2 = wrong(expect, a)
        if w2 and len(t) < best[0]:
            best = (len(t), t, a, w2)
    return violation("%s %s" % (name, best[3]), best[1], expect, best[2])


def run(ctx):
    build_library()
    if ctx.prop == "C17":
        misuses(ctx)
    else:
        from . import definitions

        definitions.run(ctx)


def replay(v):
    if v["kind"] != "program":
        return None
    build_library()
    d = scratch("replay")
    a = ask(v["source"], os.path.join(d, "program.rs"))
    w = wrong(v["expect"], a)
    for _, _, m in a.errors[:4]:
        say(m)
    say("the program " + (w or "is %s, as expected" % v["expect"]))
    return 1 if w else 0
