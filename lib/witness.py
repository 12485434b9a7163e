"""Compile-time witnesses: translation units of static_asserts and of uses.

A unit is a list of (label, line).  Each line is put on a source line of its
own; a compiler error is attributed to the witness line it is reported in or
was instantiated from.
"""
import re
from harness import *


def run_unit(ctx, rule, prelude, items, compiler, std, expect_fail=False, name="witness"):
    nl = prelude.count("\n") + (0 if prelude.endswith("\n") else 1)
    if not prelude.endswith("\n"):
        prelude += "\n"
    src = prelude + "\n".join(t for _, t in items) + "\nint main() { return 0; }\n"
    extra = ["-fno-show-column"] if compiler == "g++" else ["-fno-show-column", "-fno-caret-diagnostics", "-ferror-limit=0"]
    if compiler == "g++":
        extra += ["-fmax-errors=0", "-fno-diagnostics-show-caret"]
    rc, err = compile_text(src, compiler, std, extra)
    bad = {}
    if rc != 0:
        # group diagnostics: an 'error:' line plus its notes / 'required from' context
        cur, blocks = [], []
        for line in err.splitlines():
            if compiler == "clang++":
                if " error: " in line and cur:
                    blocks.append(cur); cur = []
                cur.append(line)
            else:
                # gcc prints the instantiation context before the error
                cur.append(line)
                if " error: " in line:
                    blocks.append(cur); cur = []
        if cur:
            if compiler == "clang++" or not blocks:
                blocks.append(cur)
            else:
                blocks[-1] += cur
        for b in blocks:
            e = next((l for l in b if " error: " in l), None)
            if e is None:
                continue
            lines = [int(m.group(1)) for l in b for m in [re.match(r"<stdin>:(\d+)", l)] if m]
            lines += [int(m.group(1)) for l in b for m in re.finditer(r"<stdin>:(\d+)", l)]
            idx = [n - nl - 1 for n in lines if 0 <= n - nl - 1 < len(items)]
            if not idx:
                idx = [None]
            bad.setdefault(idx[0], e.strip()[:260])
    ctx.count("witness_units")
    return bad


def assert_matrix(ctx, rule, prelude, items, compilers=None, stds=None):
    """items: (label, C++ line).  Every line must compile."""
    jobs = [(c, s) for c in (compilers or COMPILERS) for s in (stds or STDS)]
    res = pmap(lambda j: run_unit(ctx, rule, prelude, items(j[1]) if callable(items) else items, j[0], j[1]), jobs)
    for (c, s), bad in zip(jobs, res):
        its = items(s) if callable(items) else items
        for i, (label, text) in enumerate(its):
            if i in bad:
                ctx.violation(rule, label, "%s (%s -std=%s)" % (bad[i], c, s), key=rule + "|" + label)
            elif None in bad:
                ctx.undecided(rule, label, "unit failed elsewhere")
            else:
                ctx.ok(rule, label)
        if None in bad:
            ctx.violation(rule, "whole unit", "%s (%s -std=%s)" % (bad[None], c, s))
