"""Findings: defects of the library that are known, but not repaired.

Each is a program that exits with 0 if the property holds for it and with 3 if not. The check says so if it is listed in
KNOWN_FINDINGS, and takes it for a violation like any other if it is not."""
import os
import re
import subprocess

from .base import VERIF, CheckError, Violation, build, say, scratch

# The sign of a NaN that comes out of an operation is not specified, and differs between what the compiler computes and
# what the processor computes. So a length may be different when the object is made and when it is used.
FLOAT_LENGTH = """
use varlen::prelude::*;
#[define_varlen]
struct Quotient {
    #[controls_layout] x: f32,
    #[controls_layout] y: f32,
    #[varlen_array] a: [u8; ((*x / *y).to_bits() >> 28) as usize],
}
#[inline(never)]
fn make(made: &std::cell::Cell<usize>) -> VBox<Quotient> {
    VBox::new(quotient::Init { x: 0.0, y: 0.0, a: FillSequentially(|i| { made.set(made.get() + 1); i as u8 }) })
}
#[inline(never)]
fn length(q: &Quotient) -> usize { q.refs().a.len() }
fn main() {
    let made = std::cell::Cell::new(0);
    let q = make(&made);
    let n = length(std::hint::black_box(&q));
    // Its layout may not be the one it was allocated with.
    std::mem::forget(q);
    println!("{} elements were initialized, {} are there", made.get(), n);
    std::process::exit(if made.get() == n { 0 } else { 3 });
}
"""

# property: [(name, what fails, build, program)]
FINDINGS = {
    "C14": [("nan-length", "a length expression that reads the bits of a float that an operation has made NaN may give another length when the object is used than when it was made (0.0 / 0.0 in an optimized build)", "release", FLOAT_LENGTH)],
}


def listed(prop, name):
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
        return any(re.match(r"known: property=%s %s\b" % (prop, re.escape(name)), l) for l in f)


def fails(profile, text, d):
    from .generated import compile_program

    build(profile)
    out = os.path.join(d, "finding")
    errors = compile_program(text, out + ".rs", out, profile=profile)
    if errors:
        # Rejecting it is one way to repair it.
        return None
    try:
        r = subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, cwd=d)
    except subprocess.TimeoutExpired:
        raise CheckError("a finding's program: out of time")
    if r.returncode == 0:
        return None
    return r.stdout.strip() or "exit %d" % r.returncode


def run(ctx):
    for name, what, profile, text in FINDINGS.get(ctx.prop, []):
        said = fails(profile, text, ctx.dir)
        ctx.evaluations += 1
        ctx.parts.setdefault("findings", {})[name] = "fails: " + said if said else "holds"
        if said is None:
            continue
        if listed(ctx.prop, name):
            say("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, name, what))
        else:
            raise Violation({"kind": "finding", "name": name, "build": profile, "message": what, "log": [said], "source": text})


def replay(v):
    if v["kind"] != "finding":
        return None
    said = fails(v["build"], v["source"], scratch("replay"))
    say(said or "holds")
    return 1 if said else 0
