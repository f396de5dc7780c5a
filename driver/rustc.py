"""Asking the compiler about single programs."""
import concurrent.futures
import json
import os
import subprocess

from .base import PROCS, CheckError, artifacts, environment


class Answer:
    """accepted; errors: list of (code, message, rendered); lines: those that have an error."""

    def __init__(self, accepted, errors, lines=()):
        self.accepted, self.errors, self.lines = accepted, errors, set(lines)

    @property
    def panicked(self):
        """The macro panicked while it was expanded."""
        return any("panicked" in m for _, m, _ in self.errors)

    def summary(self):
        return "; ".join("%s %s" % (c or "", m) for c, m, _ in self.errors[:3])


def ask(text, path, timeout=300, name="program", keep=False, externs=()):
    """Does this library type-check (and borrow-check)? Keeps what others need to use it, if asked."""
    with open(path, "w") as f:
        f.write(text)
    a = artifacts("dev")
    out = path[:-3] + ".rmeta"
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", name, "--emit=metadata", "-A", "warnings", "--error-format=json", "-o", out, path, "-L", "dependency=" + a["deps"]]
    for n in ("varlen", "bumpalo"):
        cmd += ["--extern", "%s=%s" % (n, a[n])]
    for n, f in externs:
        cmd += ["--extern", "%s=%s" % (n, f)]
    e = environment()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    try:
        r = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("compiling %s: out of time" % path)
    finally:
        for p in (out, path):
            if os.path.exists(p) and not (keep and p == out):
                os.remove(p)
    errors, lines = [], []
    for line in r.stderr.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("level") == "error":
            errors.append(((j.get("code") or {}).get("code"), j["message"], (j["rendered"] or "")[:800]))
            for sp in j["spans"]:
                # Inside of a macro's output: where the macro is used.
                while sp.get("expansion") and sp["file_name"] != path:
                    sp = dict(sp["expansion"]["span"], is_primary=sp["is_primary"])
                if sp["is_primary"] and sp["file_name"] == path:
                    lines.append(sp["line_start"])
    errors = [x for x in errors if not x[1].startswith("aborting due to")]
    if r.returncode == 0:
        return Answer(True, [])
    if r.returncode != 1 or not errors:
        raise CheckError("rustc ended with %d on\n%s\n%s" % (r.returncode, text, r.stderr[-1500:]))
    return Answer(False, errors, lines)


def ask_all(texts, d, stem):
    """Answers for many programs, in order. The same text is asked once."""
    unique = list(dict.fromkeys(texts))
    with concurrent.futures.ThreadPoolExecutor(PROCS) as pool:
        got = list(pool.map(lambda x: ask(x[1], os.path.join(d, "%s%d.rs" % (stem, x[0]))), enumerate(unique)))
    m = dict(zip(unique, got))
    return [m[t] for t in texts]
