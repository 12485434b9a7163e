"""C28: public headers are self-contained, order independent, ODR safe."""
import os, re, json
from harness import *

LEVEL = "other"
EXPLANATION = ("Every public header is type-checked alone and twice, in every supported language standard and with both "
    "installed compilers; all public headers are type-checked together in several orders (thorough: every ordered pair); "
    "the LLVM IR of a unit that includes everything is searched for strong external definitions and for per-unit mutable "
    "state (internal linkage, non-const by debug info); two such units are linked.")
ASSUMPTIONS = ["the two installed compilers stand for all compilers"]


def all_headers():
    out = []
    for d, _, fs in os.walk(os.path.join(INC, "Caitlyn")):
        for f in fs:
            out.append(os.path.relpath(os.path.join(d, f), INC))
    return sorted(out)


def run(ctx):
    pub = public_headers()
    ctx.need(len(pub), 12, "public headers")
    allh = all_headers()
    ctx.need(len(allh), 60, "headers")
    jobs = []
    for h in ["Caitlyn/" + p for p in pub]:
        for c in COMPILERS:
            for s in STDS + ["c++23"]:
                t = '#include <%s>\n#include <%s>\nint main() { return 0; }\n' % (h, h)
                jobs.append(("self-contained", "%s (%s -std=%s)" % (h, c, s), t, c, s, h))
    P = ['#include <Caitlyn/%s>\n' % h for h in pub]
    orders = {"alphabetical": P, "reverse": P[::-1]}
    for i in range(1, len(P)):
        orders["rotated %d" % i] = P[i:] + P[:i]
    for name, o in orders.items():
        for c in COMPILERS:
            for s in (STDS + ["c++23"] if name in ("alphabetical", "reverse") else ["c++11"]):
                jobs.append(("any order", "%s order, first %s (%s -std=%s)" % (name, o[0].split("<")[1][:-2], c, s), "".join(o) + "int main() { return 0; }\n", c, s, None))
    if ctx.tier == "thorough":
        for a in P:
            for b in P:
                if a != b:
                    jobs.append(("any order", "%s then %s" % (a.strip(), b.strip()), a + b + "int main(){}\n", "g++", "c++11", None))

    def one(j):
        rc, err = compile_text(j[2], j[3], j[4], ["-pedantic-errors"])
        return rc, err
    res = pmap(one, jobs)
    for j, (rc, err) in zip(jobs, res):
        ctx.count("units_type_checked")
        if rc == 0:
            ctx.ok(j[0], j[1])
        else:
            ctx.violation(j[0], j[1], first_error(err))
    # duplicate guards: the second file would silently be dropped
    guards = {}
    for h in allh:
        m = re.search(r"^\s*#\s*ifndef\s+(\w+)\s*\n\s*#\s*define\s+(\w+)", open(os.path.join(INC, h), errors="replace").read(), re.M)
        if m and m.group(1) == m.group(2):
            guards.setdefault(m.group(1), []).append(h)
    ctx.need(len(guards), 30, "include guards")
    for g, fs in guards.items():
        if len(fs) > 1:
            ctx.violation("one guard per header", ", ".join(fs), "these headers share the include guard %s: including one drops the others" % g)
        else:
            ctx.ok("one guard per header", fs[0])
    # ODR: one unit that includes everything and touches the global state
    use = "".join(P) + open(os.path.join(VERIF, "witness", "odr_use.inc")).read()
    for s in (["c++11", "c++17"] if ctx.tier == "quick" else STDS):
        src = os.path.join(ctx.scratch, "odr.cpp")
        open(src, "w").write(use)
        rc, out, err = sh(["clang++", "-w", "-std=" + s, "-I", INC, "-O0", "-g", "-S", "-emit-llvm", "-o", "-", src])
        if rc != 0:
            ctx.violation("one program", "all public headers (-std=%s)" % s, first_error(err))
            continue
        odr(ctx, out, s)
        objs = []
        for i in (1, 2):
            o = os.path.join(ctx.scratch, "u%d.o" % i)
            rc, out, err = sh(["g++", "-w", "-std=" + s, "-I", INC, "-O0", "-DUNIT=%d" % i, "-c", "-o", o, src])
            objs.append(o)
            if rc:
                ctx.violation("one program", "all public headers (g++ -std=%s)" % s, first_error(err))
        rc, out, err = sh(["g++", "-shared", "-o", os.path.join(ctx.scratch, "l.so")] + objs)
        rc2, out, err = sh(["ld", "-r", "-o", os.path.join(ctx.scratch, "l.o")] + objs)
        if rc2:
            ctx.violation("one program", "two units (-std=%s)" % s, (err or out).strip().splitlines()[0][:300])
        else:
            ctx.ok("one program", "two units linked (-std=%s)" % s)


def odr(ctx, ir, std):
    files = dict(re.findall(r'^!(\d+) = !DIFile\(filename: "([^"]*)"', ir, re.M))
    md = {}
    for m in re.finditer(r"^!(\d+) = (?:distinct )?!(\w+)\((.*)\)\s*$", ir, re.M):
        md[m.group(1)] = (m.group(2), m.group(3))
    for m in re.finditer(r"^!(\d+) = (?:distinct )?!\{(.*)\}", ir, re.M):
        md[m.group(1)] = ("tuple", m.group(2))

    def field(node, name):
        m = re.search(r"\b%s: !?\"?([^,\")]+)" % name, md[node][1])
        return m.group(1) if m else None

    def fname(node):
        f = field(node, "file")
        f = f and f.lstrip("!")
        return files.get(f, "") if f else ""

    def is_const(t, depth=0):
        if t is None or t not in md or depth > 8:
            return False
        kind, body = md[t]
        if "DW_TAG_const_type" in body:
            return True
        if "DW_TAG_array_type" in body or "DW_TAG_typedef" in body:
            return is_const(field(t, "baseType"), depth + 1)
        return False
    ndef = 0
    for m in re.finditer(r'^define (.*?)@("?[\w$.]+"?)\((.*)', ir, re.M):
        pre, name = m.group(1), m.group(2).strip('"')
        linkage = pre.split()[0] if pre.split() else ""
        dbg = re.search(r"!dbg !(\d+)", m.group(3))
        where = fname(dbg.group(1)) if dbg and dbg.group(1) in md else ""
        if "Caitlyn" not in where and "Caitlyn" not in name:
            continue
        ndef += 1
        if linkage in ("linkonce_odr", "weak_odr", "internal", "linkonce", "weak", "private", "available_externally"):
            ctx.ok("no strong definition in a header")
        elif "N7Caitlyn" in name or "/include/Caitlyn/" in where:
            dem = sh(["c++filt", name])[1].strip()
            ctx.violation("no strong definition in a header", "%s: %s" % (os.path.relpath(where, REPO) if where.startswith("/") else where, dem),
                          "non-inline definition: a second unit that includes the header defines it again")
    for m in re.finditer(r'^@("?[\w$.]+"?) = (.*)$', ir, re.M):
        name, rest = m.group(1).strip('"'), m.group(2)
        dbgs = re.findall(r"!dbg !(\d+)", rest)
        if not dbgs:
            continue
        gve = dbgs[0]
        if gve not in md:
            continue
        var = field(gve, "var")
        if not var or var not in md:
            continue
        where = fname(var)
        if "/include/Caitlyn/" not in where:
            continue
        site = "%s: %s" % (os.path.relpath(where, REPO), field(var, "name"))
        toks = rest.split()
        if toks[0] == "external":
            continue
        strong = toks[0] in ("global", "constant", "dso_local", "thread_local", "local_unnamed_addr", "unnamed_addr")
        if strong:
            ctx.violation("no strong definition in a header", site, "non-inline variable definition")
        elif toks[0] == "internal" and not is_const(field(var, "type")):
            ctx.violation("no per-unit mutable state", site, "mutable variable with internal linkage: every unit gets its own copy")
        else:
            ctx.ok("no per-unit mutable state", site)
    ctx.need(ndef, 100, "library definitions in the unit")
    ctx.count("library_definitions", ndef)
    ctx.ok("anchors", "%d library definitions (-std=%s)" % (ndef, std))
